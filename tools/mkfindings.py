#!/usr/bin/env python3
"""writes findings.json: the genuine defects found, repaired ("fixed") or recorded ("known").
Only "known" entries have an effect on a check, and only on the signatures they list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C12", "7400d05", "JSON times outside the range of nanosecond timestamps (before 1678, after 2262, the zero time) decoded to a different instant"),
 ("C11", "42d9d27", "results handed to Reply were changed in place (errors replaced) before the monitor saw them"),
 ("C07", "f81a11a", "an error whose value is the zero value of its type (empty struct, 0, \"\") arrived as nil"),
 ("C12", "4866592", "a time passed directly as argument or result in JSON was not sent as a timestamp"),
 ("C04", "41e1873", "HTTPError.Body was always empty"),
 ("C10", "c2742c0", "ResponseWriter took an informational or repeated WriteHeader for the final status, so replies were suppressed or duplicated"),
 ("C11", "12a2897", "LoadArgs replaced elements of the argument slice in place"),
 ("C07", "8630e41", "error data was decoded with mapstructure and lost or mangled fields"),
 ("C08", "e2aa970", "errors.As matched an error type of another package with the same short name"),
 ("C07", "3f1792e", "an error wrapping its cause other than by prefix arrived with another text, and errors.Is failed on it"),
 ("C15", "e9f25ac", "instrumenting a second service with prometheus panicked on duplicate registration"),
 ("C15", "f40d97b", "GoRPC call times were observed in nanoseconds instead of seconds"),
 ("C25", "db8d7ce", "surplus msgpack arguments made LoadArgs discard the expected ones"),
 ("C07", "302aef4", "following Cause() of a received error never ended"),
 ("C08", "4aa0a9b", "a received error returned again with a stack trace lost its type"),
 ("C13", "3914f26", "types only used in an anonymous struct field were not collected: no union registration, no TypeScript declaration"),
 ("C20", "96d02f5", "a method with an argument or result of an interface type of its own package was generated without the type's name: the Go code did not compile"),
 ("C18", "cf481a1", "JSON names that are no identifiers were rendered as bare TypeScript property names: the file was no valid TypeScript"),
 ("C18", "5b64c1f", "named slices and maps of another package lacked |null although nil is sent as null"),
 ("C18", "cf5cda2", "byte and *byte were declared string, []uint8 Array<number>, and a named []byte Array<string>"),
 ("C18", "58ba8f0", "rune and uintptr were rendered as undeclared TypeScript types"),
 ("C18", "68ff3b1", "a union of structs of another package was rendered as an object of constants"),
 ("C18", "e30b9e3", "an embedded struct with a JSON name had no property in TypeScript"),
 ("C18", "1a75928", "the fields of structs embedded in anonymous structs were missing in TypeScript"),
 ("C17", "adfabec", "types and constants listed in a mapping were only generated by the first target; if that had no TypeScript output they were lost"),
 ("C17", "e59233c", "a listed scalar of a package from which nothing else was needed was not found"),
 ("C17", "7b31694", "a run that could not write the file of a mapping ended with success"),
 ("C17", "745471b", "packages like gx/d1 and gx-d1 had the same TypeScript module name, files imported two modules under one name"),
 ("C17", "339ab93", "TypeScript files imported modules of packages they did not use, also such that were never written"),
 ("C24", "31906ba", "negative, second and repeated constants were lost; blank ones, member names starting with a digit, characters, raw strings, Go escapes, octal and hexadecimal float literals gave wrong or invalid enums; names like APIv2x were changed; byte types were any"),
 ("C17", "251d7fd", "types defined as another named type of their package were not declared, fields of unexported types had undeclared names"),
 ("C24", "24d7749", "unexported constants like statusA1b became A1B"),
 ("C21", "978f943", "a damaged generated Go file of one target made every later run fail, if a target built before uses types of its package"),
 ("C22", "ffdfa4e", "packages like ex.com/app2 were read from (and their Go code written to) a directory next to the module ex.com/app"),
 ("C22", "c50287d", "the first matching replace or require directive won over the longest module path; replace directives for other versions applied; absolute local directories were joined to the module's; modules with capital letters were not found in the module cache"),
 ("C22", "1a1e52b", "a directory without Go files in GOPATH hid the package of that path in GOROOT or vendor; a GOPATH ending in vendor was taken for a vendor directory"),
 ("C22", "ccd1b62", "go.mod was not read if the module's path is absolute: its replace and require directives did not apply"),
 ("C23", "2cfd2e5", "a mapping without settings made loading panic, a target without settings made the run panic"),
 ("C20", "4bd5307", "files excluded by build constraints (other systems, ignore, tags) were read: their methods were exposed and the code did not compile"),
 ("C20", "67f21f0", "unexported methods of service interfaces were exposed; exported names with a non-ASCII first letter were not"),
 ("C20", "045fdd9", "types imported from packages like lib/v2 (package lib), go-dash (package dash) or dot.v3 (package dot) without an import name were not found"),
 ("C20", "a35e76d", "the packages x/d1 and x-d1 were imported under one name, names of other paths were no identifiers"),
 ("C20", "2b63dd2", "a service package whose short name is the path of another package (time) had its types qualified with that package in the TSRPC proxy"),
 ("C20", "e47f98d", "services with unnamed or blank parameters or blank results generated code that does not compile, and invalid TypeScript"),
 ("C20", "a63172b", "GoRPC code of an unexported service named its messages in two ways and did not compile"),
 ("C20", "b5a3914", "parameters or results named like a variable, import or field of the generated code (args, reply, ctx, req, response, nil, id beside Id, ...) generated code that does not compile"),
 ("C19", "77a89ee", "parameters with reserved names, one named response, and a method Constructor generated TypeScript that is invalid or fails when called"),
 ("C18", "46cc514", "the tags of fields written as interpreted strings were ignored"),
 ("C18", "7810aac", "unexported fields whose name starts with a non-ASCII letter were rendered as properties"),
 ("C18", "5882015", "a field tagged json:\"-,\" was left out in TypeScript although JSON names it -"),
 ("C06", "694fe52", "default headers named like a promised one in other case (content-type) were sent beside it"),
    ("C24", "c4cf14d", "constants of a type that differ only in its name as prefix (KindA and A) became two enum members of the same name"),
    ("C19", "ad02ca0", "a package whose import path begins with a digit or contains ~ or + (9fans.net, git.sr.ht/~user) was imported in TypeScript under a name that is no identifier"),
 ("C17", "9588684", "a file that used only types of a package whose names begin with a non-ASCII letter did not import its module (introduced by 339ab93)"),
 ("C19", "88d2b71", "a result of type error was given the undeclared TypeScript type error"),
]
KNOWN = [
 ("C18-nil-embedded-pointer", "C18", ["nil-embedded-pointer"],
  "the fields of an embedded (inline) struct pointer that is nil are sent as null, its TypeScript type Partial<Base> does not admit null"),
 ("C18-unset-union", "C18", ["unset-union"],
  "a union field no member of which is set is sent as null, its TypeScript type admits only the members and undefined"),
 ("C18-union-of-constants", "C18", ["union-of-constants"],
  "a union of constant types is declared as typeof an object of all constants, the JSON string sent for it is not a member"),
 ("C18-foreign-definition", "C18", ["foreign-definition"],
  "a type defined as (or an alias of) a type of another package is declared as an empty interface"),
 ("C18-embedded-without-tag", "C18", ["embedded-without-tag"],
  "the fields of a struct embedded without a JSON tag are missing in TypeScript, JSON has them"),
 ("C20-gorpc-start-stop", "C20", ["gorpc-start-stop"],
  "a method Start or Stop of a GoRPC service is declared twice by the generated client, which has methods of these names itself"),
 ("C20-http-client-fields", "C20", ["http-client-fields"],
  "a method Client, URL or EndPoint of a service has the name of a field of the generated HTTP client, which does not compile"),
 ("C20-gorpc-same-message", "C20", ["gorpc-same-message"],
  "GoRPC services A and AB of one package with methods BC and C share the name of a request type, the generated code does not compile"),
 ("C20-embedded-interface", "C20", ["embedded-interface"],
  "methods a service interface gets from an interface it embeds are not exposed"),
 ("C19-embedded-interface", "C19", ["embedded-interface"],
  "methods a service interface gets from an interface it embeds are not exposed"),
 ("C19-transport-method", "C19", ["transport-method"],
  "a method Transport of a service has the name of the property transport of the TypeScript client, which is no valid class"),
]
out = [dict(id="%s-%s" % (p, c), property=p, status="fixed", sigs=[], what=w,
            line="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED]
out += [dict(id=i, property=p, status="known", sigs=s, what=w) for i, p, s, w in KNOWN]
json.dump(out, open(V + "/findings.json", "w"), indent=1)
print(len(out), "findings")
