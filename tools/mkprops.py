#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A request executes exactly the method its path names, once, or nothing",
  "For a generated HTTP proxy, a POST whose URL path is the proxy's endpoint, a slash and the exact name of one of its methods runs that method exactly once (when its body decodes) and answers 200 with the reply. Every other request runs no service code: an unknown function name is answered 404, a verb other than POST or OPTIONS 405, and OPTIONS an empty 200. This holds regardless of the requests handled before it by the same proxy.",
  ["inputs", "histories"], "every verb, URL path (near misses, prefixes, suffixes, case variants, other services' methods, nested endpoints, escapes, queries), body class, content type and request order, for every generated service",
  "The tests call one or two existing methods of one service over the happy path; no test sends a wrong verb, a near-miss path or a sequence of mixed requests.",
  ["gotsrpc.go", "go.go"], [("path to function name", "gotsrpc.go:GetCalledFunc"), ("verb check, switch on function name, default branch", "go.go:renderTSRPCServiceProxies"), ("error replies", "gotsrpc.go:ErrorFuncNotFound, ErrorMethodNotAllowed")],
  [("EndPoint", "URL prefix the proxy answers on", "generated proxy")], ["service implementation calls", "http.ResponseWriter"])

p("C02", "Go client calls deliver arguments and results unchanged, in position",
  "A call through the generated Go client runs the service method with exactly the argument values the caller passed, each in its own position, and returns to the caller exactly the values the method returned, each in its own position, with a nil client error. This holds for both the msgpack and the JSON encoding and for all supported value shapes (scalars at their limits, strings of any content and length, byte slices, nil and empty collections, nested structs, pointers, maps, types of other packages), including methods without arguments or without results.",
  ["inputs", "programs"], "all argument and result values of the supported types, both encodings, all method signatures",
  "Existing tests exercise one string echo and one context call; argument order, multiple results, nil versus empty, limits and large payloads are not sampled.",
  ["client.go", "transport.go", "gotsrpc.go", "go.go"], [("argument encoding", "client.go:bufferedClient.Call"), ("argument decoding", "gotsrpc.go:LoadArgs"), ("reply encoding", "gotsrpc.go:Reply"), ("codec handles", "transport.go:init"), ("generated argument and reply lists", "go.go:renderTSRPCServiceProxies, renderTSRPCServiceClients")],
  (), ["caller of the generated client", "service implementation"])

p("C03", "Concurrent calls never see each other's data or configuration",
  "When any number of calls run concurrently through shared clients and a shared proxy, each call's arguments, results, status, call statistics and errors are exactly those it would have had alone, whatever the interleaving. Setting a client's encoding, default headers or HTTP client affects that client only.",
  ["schedules", "histories"], "all interleavings of client encode, send, server decode, execution, reply encode, write, client read and decode of several calls over shared clients, proxies and stats handlers",
  "No test runs two calls at the same time.",
  ["client.go", "gotsrpc.go", "transport.go", "instrumentation.go", "go.go"], [("per call buffers", "client.go:Call, gotsrpc.go:Reply"), ("header clone per request", "client.go:Call"), ("per request stats", "gotsrpc.go:RequestWithStatsContext")],
  [("bufferedClient", "client, handle and headers of one client", "client.go")], ["generated client", "service implementation", "stats handler"])

p("C04", "Every failed call is reported as a client error and returns no results",
  "When a Go client call does not complete (arguments cannot be encoded, the request cannot be built or sent, the context ends, the response cannot be read, its status is not 200, or its body does not decode) the returned error is non-nil and a *ClientError is in its chain, and a call that completes returns a nil client error. For a non-200 response the chain also holds an *HTTPError carrying that status code and the response body as sent, and for a context or transport failure the underlying cause is in the chain. No result value is set by a call whose response status was not 200.",
  ["fault_sequences", "inputs"], "every failing step of a call, every response status and body, both encodings, and any sequence of failing and succeeding calls on one client",
  "Tests check one unreachable server and none of the other failing steps.",
  ["client.go", "clienterror.go", "httperror.go", "go.go"], [("error wrapping at each step", "client.go:Call"), ("status check before decoding", "client.go:Call"), ("unwrap", "clienterror.go:Unwrap")],
  (), ["error returned by generated client", "http.RoundTripper"])

p("C05", "Reply encoding, content type and length follow the request's content type",
  "A proxy decodes arguments and encodes the reply with msgpack exactly when the request's Content-Type is the msgpack type a gotsrpc client sends, and with JSON for any other or missing Content-Type. Every reply states the content type its body is really encoded in and a Content-Length equal to the body's length, and the body is an array with one entry per declared result. A Go client decodes a reply by the reply's stated content type, whatever encoding it sent with.",
  ["inputs", "configurations"], "all request content types, client encodings, methods and result counts",
  "Existing tests always use one encoding on both sides and never look at the reply's headers.",
  ["transport.go", "gotsrpc.go", "client.go"], [("handle selection", "transport.go:getHandlerForContentType, getHandleForEncoding"), ("reply headers", "gotsrpc.go:Reply")],
  (), ["http.ResponseWriter", "raw HTTP client"])

p("C06", "Outgoing requests carry exactly the promised headers; defaults stay intact",
  "Every request of a Go client is a POST to URL+endpoint+/+method with Content-Type and Accept naming its encoding and X-Foomo-S2s: true, overriding same-named default headers, plus every configured default header with all its values. The header map given to SetDefaultHeaders is never modified, and neither a header nor an encoding of an earlier call or of another client ever shows up in a request.",
  ["inputs", "histories"], "all default header sets, encoding changes and call sequences over several clients",
  "One test compares the headers of a single request with and without default headers.",
  ["client.go", "transport.go"], [("request construction", "client.go:newRequest"), ("header clone", "client.go:Call")],
  [("headers", "default headers of the client", "client.go:bufferedClient")], ["http.RoundTripper", "caller's header map"])

p("C07", "Service errors reach Go callers with nilness, message and chain intact",
  "With the default encoding, a service method's error result is nil at the Go caller exactly when it was nil (also as a nil pointer of a concrete error type) at the service, in any result position. A non-nil error arrives with the same Error() text and the same chain of causes, each with its own text, and the other results of the call arrive with it. A result declared as a concrete error type arrives with the field values the service set.",
  ["inputs"], "all error values: wrapped and nested chains, formatted wraps, struct, scalar and value-receiver errors, zero-valued errors, nil and typed nil, in every result position",
  "The example prints errors without asserting on them; no test checks wrapped, zero-valued, typed or multi-position errors.",
  ["error.go", "transport.go", "client.go"], [("conversion to wire form", "transport.go:msgpackClientHandle, error.go:NewError"), ("conversion back", "transport.go:afterDecodeReply"), ("message reconstruction", "error.go:Error.Error")],
  (), ["generated client", "service implementation"])

p("C08", "errors.Is and errors.As on a received error match what the service returned",
  "For an error received over the wire, errors.Is with a value equal in type (including its package) and message to some error of the original chain is true, and errors.Is with an error of different type or message is false. errors.As into the type of an error of the original chain succeeds and fills in that error's exported data, and into a type that occurs nowhere in the chain, even one with the same short name in another package, fails and leaves the target alone. (Single-cause chains; stack-trace wrappers of the errors library are looked through; exported data of concrete field types.)",
  ["inputs"], "all error chains and all candidate targets, matching and near-matching",
  "Is and As are used in the example program only, never asserted, and never with near misses.",
  ["error.go"], [("type and message comparison", "error.go:Error.Is"), ("type comparison and data decoding", "error.go:Error.As"), ("chain", "error.go:Error.Unwrap")],
  (), ["errors.Is / errors.As on the received error"])

p("C09", "An instrumented service reports each call exactly once, with its own figures",
  "A stats handler installed with InstrumentedService around a proxy is called exactly once, after the response, for every POST naming an existing method, and not at all for unknown method names. The record names the right package, service and function and carries the request's and reply's byte sizes and non-negative durations; error code (the error's ErrorCode() or 1), type and message are those of the method's last result when that is a non-nil error, and zero otherwise, in either encoding. Figures of one call never appear in another call's record, and a request without instrumentation is served just the same.",
  ["inputs", "histories", "schedules"], "all methods, encodings, outcomes (success, service error, undecodable arguments, unencodable reply, unknown method) and request sequences",
  "One test calls the stats handler once with an empty handler function; the record's content is never checked.",
  ["instrumentation.go", "gotsrpc.go", "stats.go", "go.go"], [("stats in request context", "gotsrpc.go:RequestWithStatsContext, GetStatsForRequest, ClearStats"), ("figures", "gotsrpc.go:LoadArgs, Reply"), ("names", "go.go:renderTSRPCServiceProxies")],
  [("CallStats", "one record per request", "stats.go")], ["stats handler"])

p("C10", "Session methods reach the real request and may take over the response",
  "A method declared with a leading http.ResponseWriter and *http.Request gets the live response writer and the incoming request, and its remaining parameters get the call's arguments. If it sets a final status other than 200 no RPC reply is written and the client sees exactly the status, headers and body the method wrote; otherwise the reply is written as for any other method, together with headers the method set.",
  ["inputs"], "all sequences of header, status (informational and repeated ones included) and body writes by the method, for all signatures and both encodings",
  "No test covers a session method that writes a status, and informational or repeated statuses are never tried.",
  ["responsewriter.go", "go.go"], [("recorded status", "responsewriter.go:ResponseWriter"), ("reply suppression", "go.go:renderTSRPCServiceProxies")],
  [("status", "status the method set", "responsewriter.go")], ["raw HTTP client", "service implementation"])

p("C11", "The monitor hook sees every completed call once, with its arguments and results",
  "The Monitor function is called exactly once for every method execution that completed with its reply written or taken over by a session method, after the response was written, with that request, pointers to the decoded arguments in declaration order, the results as the method returned them (none if no reply was written) and that call's statistics. It is not called for requests that execute no method.",
  ["inputs", "histories", "schedules"], "all methods, encodings and outcomes, interleaved calls",
  "The monitor example is only compiled and generated, its hook output is never asserted.",
  ["monitor.go", "go.go", "gotsrpc.go"], [("call at the end of each case", "go.go:renderTSRPCServiceProxies"), ("hook variable", "monitor.go:Monitor")],
  (), ["Monitor function"])

p("C12", "Times cross JSON as Unix milliseconds and round-trip to the millisecond",
  "In the JSON encoding a time.Time, wherever it statically occurs (argument, result, struct field, pointer, slice or map element), is sent as its integer Unix time in milliseconds, and a nil time pointer as null; a JSON integer decodes to the time at that millisecond. So a JSON round trip keeps the instant to the millisecond for every time from year 1 to year 9999, including the zero time and times before 1970, and a msgpack round trip keeps the instant to the nanosecond (a pointer to the zero time may arrive as nil there: the codec's msgpack has no zero time).",
  ["inputs"], "all instants and all static positions of a time, both encodings",
  "The time example is compiled and generated, no test encodes a time.",
  ["timeext.go", "transport.go"], [("conversion", "timeext.go:TimeExt.ConvertExt, UpdateExt"), ("registration", "transport.go:init")],
  (), ["raw JSON bodies", "generated client"])

p("C13", "A union is sent in JSON as its one set member",
  "A union value (struct of two or more fields, all marked gotsrpc:\"union\") with one member set is sent in JSON as that member's own JSON value, without the union wrapper, wherever the union occurs, and a union with no member set is sent as null. Generation registers every union type reachable from a target's exposed services, in whatever package it is declared, so this needs no code by the user.",
  ["inputs", "programs"], "all union types (struct and scalar members, any number and position of the set member) in all positions, own and foreign packages",
  "The union example is compiled and generated; no test encodes a union.",
  ["unionext.go", "transport.go", "go.go", "build.go"], [("member selection", "unionext.go:UnionExt.ConvertExt"), ("registration", "go.go:renderInit, unionext.go:RegisterUnionExt")],
  (), ["raw JSON replies"])

p("C14", "GoRPC clients and servers bridge every method faithfully",
  "A call through a generated GoRPC client runs the named method once with exactly the caller's arguments in position (session parameters replaced by nil) and returns its results in position, also under concurrent calls on one client. With a stats handler set, the server reports each call once with its package, service and request name and a non-negative duration. A transport failure surfaces as the client error.",
  ["inputs", "schedules", "programs"], "all methods and signatures GoRPC supports, all values gob can carry, concurrent calls",
  "No test uses GoRPC at all.",
  ["go.go", "gorpc.go"], [("dispatch on request type", "go.go:renderGoRPCServiceProxies"), ("request and response structs", "go.go:renderGoRPCServiceClients")],
  (), ["generated GoRPC client", "service implementation", "stats handler"])

p("C15", "Prometheus instrumentation counts every call under its own labels",
  "prometheus.InstrumentService serves requests unchanged and, for each reported call, adds exactly one observation of request size, response size, unmarshalling, execution and marshalling time under the call's package, service and function labels, with the sizes of that call; InstrumentGoRPCService does the same with execution time. Any number of services may be instrumented in one process.",
  ["inputs", "histories"], "all sequences of calls to any number of instrumented services",
  "There is no test of the prometheus package.",
  ["prometheus/prometheus.go", "instrumentation.go"], [("summaries and labels", "prometheus/prometheus.go")],
  (), ["prometheus default gatherer"])

p("C16", "Generated output is a function of the sources and the configuration only",
  "Generating twice from the same sources and configuration yields byte-identical files, whatever order maps are iterated in, whatever files were there before, and for any number of services, targets, packages, types, constants and unions. Regenerating from unchanged sources leaves every TypeScript file untouched.",
  ["programs", "schedules", "histories"], "all programs and configurations, all map iteration orders and all earlier contents of the output files",
  "The example test generates six small programs once each; order-dependence needs several packages, types or services and luck.",
  ["build.go", "servicereader.go", "typereader.go", "typescript.go", "go.go"], [("sorting", "build.go:Build, servicereader.go:readServicesInPackage, typescript.go:renderTypescriptStructsToPackages"), ("write only if changed", "build.go:updateCode")],
  (), ["files written by the CLI"])

p("C17", "Every type reachable from an exposed service is generated, or generation fails",
  "After a successful run, every named type reachable from the argument and result types of a target's services (through fields, pointers, slices, maps, inlined and union fields, named slice and map types, across packages) and every struct or scalar listed in a mapping is declared exactly once, in the file mapped to its package, and every name used in a generated TypeScript file is declared there or imported. If a reachable type's package has no mapping or a needed type cannot be found, the run exits non-zero instead.",
  ["programs", "configurations", "schedules"], "all type graphs (cycles, diamonds, several packages) and mappings, all map iteration orders of the closure computation",
  "The examples have shallow one-package type graphs; unmapped packages and missing types are not tested.",
  ["servicereader.go", "typereader.go", "typescript.go", "build.go"], [("type closure", "servicereader.go:collectTypes, DepsSatisfied"), ("mapping check", "typescript.go:renderTypescriptStructsToPackages"), ("imports", "build.go:commonJSImports")],
  [("missingTypes", "work list of the closure", "servicereader.go:collectTypes")], ["generated .ts files", "CLI exit status"])

p("C18", "Generated TypeScript types describe the JSON the server really sends",
  "For every Go type the generator supports, each JSON value the server produces for it is a member of the generated TypeScript type: property names follow the json tags, ignored and unexported fields are absent, a property is optional exactly if its field is omitempty, null is admitted exactly where a nil pointer, slice or map can be sent, and scalars, slices, maps, times, byte slices and embedded (inline) structs map to string, number, boolean, array, record, number, base64 string and extended interface. Explicit type: tags are used verbatim.",
  ["programs", "inputs"], "all compositions of the supported Go types and tags, and all values of them",
  "The examples fix a few dozen types and compare text; no test compares a type with the JSON that is sent, and only those tag and type combinations are covered.",
  ["typescript.go", "typereader.go", "transport.go"], [("type mapping", "typescript.go:tsType, renderStructFields, renderTypescriptStruct"), ("tag parsing", "typereader.go:extractJSONInfo"), ("type reading", "typereader.go:loadExpr")],
  (), ["generated .ts files", "raw JSON replies"])

p("C19", "Generated TypeScript clients call the right method and return its results",
  "Each exposed method appears as one client function named after it (first letter lowered) whose parameters are the method's non-session arguments in order; calling it performs exactly one transport call with the Go method's name and the argument values in order. It resolves to nothing, the single result, or an object with one property per result (declared name, or ret, ret_1, ...) holding the result of that position, and the class names the service's endpoint.",
  ["programs", "inputs"], "all service signatures (any number of arguments and results, named and unnamed, session and non-session) and argument values",
  "The generated TypeScript of six examples is compared as text and type-checked, never executed.",
  ["typscriptclient.go", "typescript.go", "go.go"], [("client rendering", "typscriptclient.go:renderTypescriptClient")],
  (), ["generated client classes run in node"])

p("C20", "Generated Go code compiles and exposes exactly the service's methods",
  "For every service declared in supported Go (as an interface, or as a struct with pointer-receiver methods spread over any files of the package), generation yields code that compiles with the package, and the proxy and clients expose exactly the exported methods with their declared argument and result types, each bridged to the like-named service method. Exactly the services selected by tsrpc and gorpc are exposed by the respective kind of code, under the endpoint and constants configured.",
  ["programs", "configurations"], "all service packages within the supported signatures, all endpoint and selection configurations",
  "Only the signatures of the six examples are generated and compiled.",
  ["go.go", "servicereader.go", "typereader.go", "build.go", "config/config.go"], [("reading services", "servicereader.go:readServiceFile"), ("type rendering", "go.go:goType"), ("imports", "go.go:extractImports, renderImports"), ("selection", "config/config.go:IsTSRPC, IsGoRPC")],
  (), ["go build of the generated package", "generated API by reflection"])

p("C21", "A run leaves exactly the configured files, for any history of runs",
  "After a successful run each target's package directory holds exactly the generated Go files its configuration asks for (proxy and client per transport, without the HTTP client if skipped) with stale ones removed, its TypeScript client is at its out path if one is set, and each mapped package's types are at the mapping's out path. The same final files result whatever sequence of earlier runs and configuration changes preceded, other files are never touched, and targets are independent of each other's settings.",
  ["histories", "configurations"], "all sequences of configuration edits and runs over several targets",
  "The example test runs each configuration once on a clean tree.",
  ["build.go", "config/config.go"], [("removal and writing", "build.go:Build"), ("paths", "build.go:getPathForTarget"), ("update", "build.go:updateCode")],
  (), ["file system after CLI runs"])

p("C22", "Packages are read from the directory Go itself would use",
  "The generator resolves an import path to the configured module's own directory when the path is the module path or below it (and not merely shares a textual prefix), else through go.mod replace directives (local or versioned) and then require directives, preferring the longest matching module path, else to GOPATH, GOROOT or the vendor directory. A package that cannot be found makes the run fail rather than produce partial output.",
  ["configurations", "programs"], "all module paths, import paths, replace and require sets, including prefixes of one another",
  "The examples only import their own module and the standard library.",
  ["gotsrpc.go", "build.go", "config/config.go"], [("directory choice", "gotsrpc.go:parseDir"), ("target path", "build.go:getPathForTarget"), ("go.mod", "config/config.go:LoadConfigFile")],
  (), ["types in the generated output", "CLI exit status"])

p("C23", "Configuration files are read completely and predicates decide by exact name",
  "Loading a configuration yields every target, service, selection, mapping and module setting as written, each mapping knows its Go package, and a relative module path becomes the absolute directory relative to the configuration file, with its go.mod loaded when present. A service is exposed over HTTP when tsrpc is empty or lists its exact name and over GoRPC only when gorpc lists its exact name. An unreadable or malformed configuration or go.mod is an error, never an empty configuration.",
  ["configurations"], "all configuration documents, file locations and go.mod contents",
  "Tests load one document and two module paths.",
  ["config/config.go"], [("loading", "config/config.go:LoadConfigFile, loadConfig"), ("selection", "config/config.go:IsGoRPC, IsTSRPC")],
  (), ["config.LoadConfigFile result", "CLI exit status"])

p("C24", "Typed constants become enums with the same values",
  "For a reachable named string or number type with typed literal constants, the generated TypeScript declares one enum holding exactly one member per constant of that type, in any file of the package, with the constant's value and the constant's name without the type-name prefix; a reachable named scalar without constants becomes an alias of string, number or boolean. Constants of other types never appear in it.",
  ["programs"], "all sets of named scalar types and constants over any number of files, groups and packages",
  "Three examples contain enums of a few constants each.",
  ["servicereader.go", "typescript.go"], [("constant loading", "servicereader.go:loadConstantTypes"), ("enum rendering", "typescript.go:renderTypescriptStructsToPackages")],
  (), ["generated .ts files"])

p("C25", "Undecodable argument bodies are refused without side effects",
  "A POST to a method with arguments whose body is empty, truncated, not an array or object at top level, or holds a value that does not fit its parameter's type is answered 400 and runs no service code, in both encodings and at whatever argument position the error lies. Missing trailing arguments and nulls become zero values, surplus arguments are ignored, and the request after a refused one is unaffected.",
  ["inputs", "histories"], "all bodies (truncations and mutations of valid ones included), argument positions, both encodings, request sequences",
  "No test sends a malformed body.",
  ["gotsrpc.go", "go.go"], [("decoding", "gotsrpc.go:LoadArgs"), ("refusal before execution", "go.go:renderTSRPCServiceProxies")],
  (), ["raw HTTP client", "service implementation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
