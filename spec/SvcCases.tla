------------------------------ MODULE SvcCases ------------------------------
(***************************************************************************)
(* Service packages, built step by step (run in simulation), for C19, C20. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Env == JsonDeserialize("env.json")
VARIABLES svcs, target, conf, phase
vars == <<svcs, target, conf, phase>>
Range(s) == {s[i] : i \in 1 .. Len(s)}

N(n, ex, lc) == [n |-> n, ex |-> ex, lc |-> lc]
E(n, lc) == N(n, TRUE, lc)
Services == {"Service", "Api", "userService", "Front", "X", "@Uber"}
(* small sets of method names each, so that a step has few successors *)
Names == <<
  {E("Get", "get"), E("GetAll", "getAll"), E("Do", "do"), E("HTML", "hTML"), E("X", "x"), E("M_1", "m_1")},
  {E("New", "new"), E("Delete", "delete"), E("Func", "func"), E("Call", "call"), E("Arg", "arg"), E("Execution", "execution"), E("Rw", "rw")},
  {E("Constructor", "constructor"), E("ToString", "toString"), E("Then", "then"), E("Prototype", "prototype"), E("Name", "name"), E("Length", "length"), E("DefaultEndpoint", "defaultEndpoint")},
  {E("Init", "init"), E("String", "string"), E("Error", "error"), E("ServeHTTP", "serveHTTP"), E("Handler", "handler"), E("SetCallStatsHandler", "setCallStatsHandler"), E("Serve", "serve"), E("Service", "service")},
  {N("hidden", FALSE, "hidden"), N("get", FALSE, "get"), N("_X", FALSE, "_X"), N("@uber", FALSE, "@uber"), E("@Uber", "@uber"), N("x", FALSE, "x")} >>
ArgNames == <<
  {"id", "name", "value", "a", "b", "user", "Id", "ID", "x1"},
  {"args", "reply", "ctx", "req", "response", "request", "tsc", "clientErr", "rpcCallRes", "rpcCallErr", "res"},
  {"p", "s", "start", "rets", "funcName", "callStats", "rw", "err", "reqType", "executionStart", "self"},
  {"nil", "string", "true", "len", "error", "any", "int", "iota"},
  {"gotsrpc", "time", "http", "io", "errors", "gob", "tls", "pkg_errors", "go_context", "gorpc", "d1", "strings", "fmt"},
  {"function", "delete", "this", "arguments", "await", "new", "class", "in", "enum", "eval", "void", "with", "let", "static", "public", "typeof", "undefined", "async", "transport", "super", "export", "yield", "null"},
  {"catch", "debugger", "do", "extends", "false", "finally", "implements", "instanceof"},
  {"private", "protected", "throw", "true", "try", "while", "NaN", "Promise"},
  {"_", "_x", "@uber", "arg", "ret", "ret_1", "arg_1", "x_"} >>
RetNames == <<
  {"r", "value", "user", "total", "Value", "Total", "x1"},
  {"err", "ret", "ret_1", "result", "res", "count", "e"},
  {"response", "args", "reply", "req", "tsc", "rpcCallRes", "clientErr", "start", "rets", "request", "funcName"},
  {"stats", "name", "method", "Name", "Stats", "w", "p", "s", "transport", "this", "delete", "function", "_x", "@uber"},
  {"_"}, {"nil", "string", "gotsrpc", "time", "http", "gob", "reflect", "true"},
  {"stats", "Stats", "name", "Name", "start", "Execution", "call", "func_"} >>
Leaves == <<
  {"string", "int", "int64", "bool", "float64", "uint8", "int32"},
  {"@svc.Own", "@svc.Kind", "@svc.List", "@svc.inner"},
  {"@x/d1.T", "@x/d1.Kind", "@x-d1.T", "@x-d1.Kind"},
  {"@lib/v2.T", "@core/v1.T", "@go-dash.T", "@dot.v3.T", "@x/time.T", "@4d.example.com/lib.T", "@enum.T"},
  {"any", "time.Time", "@x/http.T", "@~u/t+x.T"} >>
Wraps == {<<>>, <<>>, <<"slice">>, <<"map">>, <<"ptr">>, <<"slice", "ptr">>, <<"map", "slice">>, <<"slice", "slice">>, <<"imap">>, <<"kmap">>, <<"slice", "kmap">>}
CanWrap(w, l) == /\ (l \in {"any", "@svc.List"} => \A i \in 1 .. Len(w) : w[i] # "ptr")
                 /\ (l = "uint8" => w = <<>>)
                 /\ (w # <<>> /\ w[Len(w)] = "kmap" => l \in {"string", "int", "int64", "int32", "@svc.Kind", "@x/d1.Kind", "@x-d1.Kind"})
Files == {"a", "b_gen", "z", "zz_generated.x"}

Init ==
  /\ svcs = <<>> /\ phase = "target"
  /\ target = [tsrpc |-> FALSE, skip |-> FALSE, out |-> TRUE, junk |-> "", style |-> "", pkg |-> "svc"]
  /\ conf \in [s : 1 .. 3, m : 0 .. 5]
Target ==
  /\ phase = "target" /\ phase' = "svcs"
  /\ \E skip \in BOOLEAN, i \in 1 .. 3, out \in {TRUE, TRUE, FALSE}, junk \in {"", "windows", "ignore", "test", "othertag", "funcs", "val", "generated"},
        style \in {"plain", "alias", "perfile", "dot"}, pkg \in {"svc", "svc", "time", "main", "my-svc"} :
       target' = [target EXCEPT !.skip = (skip /\ i = 1), !.out = out, !.junk = junk, !.style = IF style = "dot" THEN "plain" ELSE style, !.pkg = pkg]
  /\ UNCHANGED <<svcs, conf>>
Svc ==
  /\ phase = "svcs" /\ Len(svcs) < conf.s /\ phase' = "methods"
  /\ \E n \in {x \in Services : \A s \in Range(svcs) : s.n # x}, k \in {"iface", "struct"}, f \in Files, ts \in BOOLEAN, go \in BOOLEAN, ep \in {"/ep", "/service/long/path", "/"}, g \in BOOLEAN, mk \in 0 .. 4 :
       svcs' = Append(svcs, [n |-> n, kind |-> k, f |-> f, ep |-> (IF ep = "/" THEN "/r" ELSE ep) \o ToString(Len(svcs)), ts |-> ts, go |-> go, group |-> g, marker |-> mk, methods |-> <<>>])
  /\ UNCHANGED <<target, conf>>
C == Len(svcs)
S == svcs[C]
Method ==
  /\ phase = "methods" /\ Len(S.methods) < conf.m /\ phase' = "shape"
  /\ \E i \in 1 .. Len(Names) : \E n \in {x \in Names[i] : \A m \in Range(S.methods) : m.n.n # x.n /\ m.n.lc # x.lc} : \E f \in Files, recv \in {"ptr", "ptr", "val"}, sess \in {1, 2, 3} :
       svcs' = [svcs EXCEPT ![C].methods = Append(@, [n |-> n, f |-> f, in |-> TRUE, recv |-> IF recv = "val" /\ f = "z" THEN "val" ELSE "ptr", sess |-> sess = 1, args |-> <<>>, rets |-> <<>>])]
  /\ UNCHANGED <<target, conf>>
Mi == Len(S.methods)
M == S.methods[Mi]
(* how many arguments and results, and which are named *)
Shape ==
  /\ phase = "shape" /\ phase' = "args"
  /\ \E a \in 0 .. 6, r \in 0 .. 6, na \in {"all", "all", "all", "none"}, nr \in BOOLEAN :
       conf' = [s |-> conf.s, m |-> conf.m, a |-> (CASE a = 4 -> 1 [] a = 5 -> 2 [] OTHER -> a), r |-> (CASE r = 4 -> 2 [] r = 6 -> 1 [] OTHER -> r), na |-> na, nr |-> nr]
  /\ UNCHANGED <<svcs, target>>
Taken == {x.n : x \in Range(M.args)} \cup {x.n : x \in Range(M.rets)}
Arg ==
  /\ phase = "args" /\ Len(M.args) < conf.a
  /\ \E i \in (IF conf.na = "none" THEN {1} ELSE 1 .. Len(ArgNames)) : \E n \in (IF conf.na = "none" THEN {""} ELSE {x \in ArgNames[i] : x = "_" \/ x \notin Taken}) :
       svcs' = [svcs EXCEPT ![C].methods[Mi].args = Append(@, [n |-> n, t |-> [w |-> <<>>, l |-> ""]])]
  /\ phase' = "argtype"
  /\ UNCHANGED <<target, conf>>
ArgType ==
  /\ phase = "argtype" /\ phase' = "args"
  /\ \E i \in 1 .. Len(Leaves) : \E l \in Leaves[i], w \in Wraps : CanWrap(w, l) /\ svcs' = [svcs EXCEPT ![C].methods[Mi].args[Len(M.args)].t = [w |-> w, l |-> l]]
  /\ UNCHANGED <<target, conf>>
Ret ==
  /\ phase = "rets" /\ Len(M.rets) < conf.r /\ phase' = "rettype"
  /\ \E i \in (IF ~conf.nr THEN {1} ELSE IF M.n.n \in {"Call", "Func", "Execution", "Name", "Stats"} /\ M.rets = <<>> THEN {4, 7} ELSE 1 .. Len(RetNames)) :
     \E n \in (IF ~conf.nr THEN {""} ELSE {x \in RetNames[i] : IF x = "_" THEN \A y \in Range(M.rets) : y.n \notin {"ret", "ret_1"}
                                                              ELSE x \notin Taken /\ (x \in {"ret", "ret_1"} => \A y \in Range(M.rets) : y.n # "_")}) :
       svcs' = [svcs EXCEPT ![C].methods[Mi].rets = Append(@, [n |-> n, t |-> [w |-> <<>>, l |-> ""]])]
  /\ UNCHANGED <<target, conf>>
RetType ==
  /\ phase = "rettype" /\ phase' = "rets"
  /\ \E i \in 0 .. Len(Leaves) : \E l \in (IF i = 0 THEN {"error", "@svc.Err"} ELSE Leaves[i]), w \in (IF i = 0 THEN {<<>>} ELSE Wraps) :
       CanWrap(w, l) /\ svcs' = [svcs EXCEPT ![C].methods[Mi].rets[Len(M.rets)].t = [w |-> IF l = "@svc.Err" THEN <<"ptr">> ELSE w, l |-> l]]
  /\ UNCHANGED <<target, conf>>
NextPhase ==
  /\ CASE phase = "args" -> Len(M.args) = conf.a /\ phase' = "rets"
       [] phase = "rets" -> Len(M.rets) = conf.r /\ phase' = "methods"
       [] phase = "methods" -> Len(S.methods) = conf.m /\ phase' = "svcs"
       [] phase = "svcs" -> Len(svcs) = conf.s /\ phase' = "done"
       [] OTHER -> FALSE
  /\ UNCHANGED <<svcs, target, conf>>
Finish ==
  /\ phase = "done" /\ phase' = "end"
  /\ PrintT("PROG " \o ToJson([svcs |-> svcs, target |-> [target EXCEPT !.tsrpc = \E s \in Range(svcs) : s.ts]]))
  /\ UNCHANGED <<svcs, target, conf>>
Next == Target \/ Svc \/ Method \/ Shape \/ Arg \/ ArgType \/ Ret \/ RetType \/ NextPhase \/ Finish
=============================================================================
