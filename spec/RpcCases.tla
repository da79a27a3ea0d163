----------------------------- MODULE RpcCases -----------------------------
(* Enumerates the scenarios the real code is driven through: every family  *)
(* is the full product of its dimensions over the fixture's signatures.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Env  == JsonDeserialize("env.json")
Svcs == Env.svcs
Family == Env.family      \* name of the wanted family

Encs == {"msgpack", "json"}
SM == UNION {{<<s, m>> : m \in DOMAIN Svcs[s].ms} : s \in DOMAIN Svcs}
Sig(x) == Svcs[x[1]].ms[x[2]]
HasArgs(x) == Sig(x).nargs > 0
HasErr(x)  == Len(Sig(x).errs) > 0 \/ Sig(x).lasterr
Sess(x)    == Sig(x).sess
MsgpackType == "application/msgpack; charset=utf-8"
JsonType    == "application/json; charset=utf-8"

Base(x) == [kind |-> "call", svc |-> x[1], m |-> x[2], cli |-> "c1", enc |-> "msgpack", hdr |-> "none",
            via |-> "", fault |-> "none", script |-> <<>>, inst |-> TRUE, epv |-> "default", unenc |-> FALSE,
            errk |-> "nil", path |-> "exact", verb |-> "POST", ct |-> MsgpackType, body |-> "ok", pos |-> 0,
            prof |-> "tag"]
Raw(x) == [Base(x) EXCEPT !.kind = "raw"]

\* --- fidelity: every method, both encodings, every value profile
Fidelity == {[Base(x) EXCEPT !.enc = e, !.prof = p, !.inst = i, !.epv = v,
                             !.errk = IF e = "json" THEN "nil" ELSE k] :
               x \in SM, e \in Encs, p \in {"rand", "zero", "big", "tag"}, i \in {TRUE}, v \in {"default"},
               k \in {"nil"}}
            \cup {[Base(x) EXCEPT !.enc = e, !.prof = "rand", !.epv = "other", !.cli = c] :
                    x \in SM, e \in Encs, c \in {"c2", "c3n"}}
            \cup {[Base(x) EXCEPT !.prof = "rand", !.epv = "slash"] : x \in SM}
            \cup {[Base(x) EXCEPT !.errk = k, !.prof = "rand"] :
                    x \in {y \in SM : HasErr(y)}, k \in {"plain", "wrap", "coded", "fail", "codedval"}}
            \* large values
            \cup {[Base(x) EXCEPT !.enc = e, !.prof = "huge"] :
                    x \in {<<"Alpha", "Ping">>, <<"Alpha", "GetAll">>, <<"Alpha", "Coll">>, <<"Alpha", "Obj">>, <<"Alpha", "Free">>,
                           <<"Alpha", "TryGet">>, <<"Alpha", "SessPut">>, <<"Alpha", "Opaque">>, <<"Beta", "Only">>}, e \in Encs}
            \* deeply nested values
            \cup {[Base(x) EXCEPT !.enc = e, !.prof = "deep"] :
                    x \in {<<"Alpha", "Obj">>, <<"Alpha", "Free">>, <<"Alpha", "Dep">>, <<"Alpha", "Opaque">>}, e \in Encs}
            \* a call whose request is not read completely, among others
            \cup {[Base(x) EXCEPT !.enc = e, !.fault = "early"] : x \in {y \in SM : HasArgs(y)}, e \in Encs}

\* --- routing: every method x path form x verb x content type
Paths == {"exact", "lower", "upper", "slash", "dslash", "suffix", "prefix", "sub", "below", "noep", "eponly",
          "epslash", "epep", "otherep", "epfirst", "space", "pct", "query", "qonly", "dot", "svcm", "svcdot",
          "null", "uni", "semi", "unknown", "const", "under", "twice", "dotdot", "lead", "epname"}
Verbs == {"GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "CONNECT", "TRACE", "post", "POSTX", "FOO"}
Routing == {[Raw(x) EXCEPT !.path = p, !.ct = c, !.inst = i] :
               x \in SM, p \in Paths, c \in {MsgpackType, JsonType}, i \in BOOLEAN}
           \cup {[Raw(x) EXCEPT !.verb = v, !.path = p, !.inst = i] :
               x \in SM, v \in Verbs \ {"CONNECT"}, p \in {"exact", "unknown"}, i \in BOOLEAN}
           \cup {[Raw(x) EXCEPT !.epv = "other", !.path = p] : x \in SM, p \in Paths}
           \* a client whose call fails after the method was run
           \cup {[Base(x) EXCEPT !.fault = f, !.enc = e] : x \in {y \in SM : y[2] \in {"Nothing", "Set", "GetAll", "Try", "Only"}},
                   f \in {"eof", "reset", "timeout", "closed", "status:500", "status:502", "status:503", "status:429", "badbody"}, e \in Encs}

\* --- bodies: where and how the argument list is wrong or unusual
BodyForms == {"ok", "extra", "short", "nullat", "nulls", "emptyarr", "empty", "trunc", "scalar", "garbage", "misfit"}
Positional == {"short", "nullat", "trunc", "scalar", "garbage", "misfit"}
\* nothing but a scalar fits a free parameter badly
Misfits(x) == IF x = <<"Alpha", "Free">> THEN {1, 2} ELSE
              IF x = <<"Alpha", "Gated">> \/ x = <<"Beta", "SessGated">> THEN {} ELSE 0 .. (Sig(x).nargs - 1)
Bodies == {[Raw(x) EXCEPT !.body = b, !.ct = c] : x \in {y \in SM : HasArgs(y)},
               b \in BodyForms \ Positional, c \in {MsgpackType, JsonType, ""}}
          \cup UNION {{[Raw(x) EXCEPT !.body = b, !.ct = c, !.pos = p] :
               b \in (Positional \ {"misfit"}) \cup (IF p \in Misfits(x) THEN {"misfit"} ELSE {}),
               c \in {MsgpackType, JsonType}} :
               <<x, p>> \in {z \in {y \in SM : HasArgs(y)} \X (0 .. 8) : z[2] < Sig(z[1]).nargs}}

\* --- content types: which encoding is used
CTypes == {MsgpackType, JsonType, "", "application/msgpack", "application/json", "text/plain",
           "application/msgpack;charset=utf-8", "APPLICATION/MSGPACK; charset=utf-8",
           "application/msgpack; charset=UTF-8", "application/x-msgpack; charset=utf-8",
           "application/msgpack; charset=utf-8; q=1", "*/*", "application/octet-stream"}
Wire == {[Raw(x) EXCEPT !.ct = c, !.inst = i, !.prof = "rand"] : x \in SM, c \in CTypes, i \in {TRUE}}
        \cup {[Raw(x) EXCEPT !.ct = c, !.prof = "zero"] : x \in SM, c \in {MsgpackType, JsonType}}
        \cup {[Raw(x) EXCEPT !.ct = c, !.prof = "big"] : x \in SM, c \in {MsgpackType, JsonType}}
        \cup {[Base(x) EXCEPT !.enc = e, !.fault = "reenc", !.prof = "rand"] :
               x \in {y \in SM : y[2] # "Gated" /\ y[2] # "SessGated" /\ y[2] # "Typed"}, e \in Encs}
        \cup {[Raw(x) EXCEPT !.ct = c, !.unenc = TRUE] : x \in {<<"Alpha", "Opaque">>, <<"Alpha", "Gated">>,
               <<"Beta", "SessGated">>}, c \in {MsgpackType, JsonType, ""}}
        \cup {[Raw(x) EXCEPT !.ct = c, !.errk = k] : x \in {y \in SM : HasErr(y)},
               c \in {MsgpackType, JsonType}, k \in {"plain", "wrap", "coded", "fail", "codedval"}}
        \* a session method that names a content type and leaves the reply to gotsrpc
        \cup {[Raw(x) EXCEPT !.ct = c, !.prof = "rand",
                   !.script = <<[op |-> "header", n |-> 0, a |-> "Content-Type", b |-> t]>>] :
               x \in {y \in SM : Sess(y)}, c \in {MsgpackType, JsonType},
               t \in {MsgpackType, JsonType, "text/html; charset=utf-8", "application/json", ""}}

\* --- outgoing headers and client configuration
Hdrs == {"none", "plain", "conf", "lower", "ct", "rawconf"}
Headers == {[Base(x) EXCEPT !.enc = e, !.hdr = h, !.via = v, !.cli = c, !.epv = p] :
               x \in {<<"Alpha", "GetAll">>, <<"Alpha", "Nothing">>, <<"Beta", "Get">>, <<"Gamma", "Alpha">>,
                      <<"Alpha", "SessPut">>},
               e \in Encs, h \in Hdrs, v \in {"A", "B"}, c \in {"c1", "c2", "c3n"}, p \in {"default", "other", "slash"}}

\* --- failures at every step of a call
Statuses == {"status:201", "status:204", "status:206", "status:300", "status:304", "status:400", "status:401",
             "status:403", "status:404", "status:405", "status:418", "status:500", "status:502", "status:503",
             "status:599", "status:202"}
Faults == {"none", "ctxpre", "ctxmid", "deadline", "refused", "trunc", "late", "cut", "cuthalf", "badurl", "badscheme", "badbody", "reenc",
           "eof", "reset", "timeout", "closed", "early"}
Failures == {[Base(x) EXCEPT !.fault = f, !.enc = e] :
               x \in {<<"Alpha", "Nothing">>, <<"Alpha", "Ping">>, <<"Alpha", "GetAll">>, <<"Alpha", "Obj">>,
                      <<"Alpha", "TryAll">>, <<"Beta", "Only">>, <<"Alpha", "Sess">>, <<"Alpha", "Deeper">>,
                      <<"Gamma", "ListOfStrings">>},
               f \in Faults \cup Statuses, e \in Encs}
            \cup {[Base(x) EXCEPT !.fault = f, !.enc = e, !.errk = k] :
               x \in {<<"Alpha", "TryGet">>, <<"Alpha", "Typed">>}, f \in Statuses \cup {"trunc", "late", "cut", "badbody", "none"},
               e \in Encs, k \in {"plain", "wrap", "fail"}}
            \cup {[Base(x) EXCEPT !.fault = "encode", !.enc = e] :
               x \in {<<"Alpha", "Gated">>, <<"Alpha", "Free">>, <<"Beta", "SessGated">>}, e \in Encs}
            \cup {[Base(x) EXCEPT !.unenc = TRUE, !.enc = e] :
               x \in {<<"Alpha", "Opaque">>, <<"Alpha", "Gated">>, <<"Beta", "SessGated">>}, e \in Encs}
            \cup {[Base(x) EXCEPT !.enc = e, !.script = s] :
               x \in {<<"Alpha", "Sess">>, <<"Beta", "Sess">>, <<"Alpha", "SessGet">>}, e \in Encs,
               s \in {<<[op |-> "status", n |-> n, a |-> "", b |-> ""], [op |-> "write", n |-> 0, a |-> "own <body> " , b |-> ""]>> :
                       n \in {201, 400, 401, 403, 404, 409, 500, 503}}}

\* --- session methods: what the method does with the response writer
St(n) == [op |-> "status", n |-> n, a |-> "", b |-> ""]
Wr(t) == [op |-> "write", n |-> 0, a |-> t, b |-> ""]
Hd(a, b) == [op |-> "header", n |-> 0, a |-> a, b |-> b]
Finals == {201, 202, 400, 401, 403, 404, 409, 418, 500, 503, 599}
Scripts == {<<>>, <<Hd("X-Fx-One", "1")>>, <<Hd("X-Fx-One", "1"), Hd("Set-Cookie", "s=1; Path=/")>>,
            <<St(200)>>, <<Hd("X-Fx-One", "1"), St(200)>>, <<Hd("Content-Type", "text/html; charset=utf-8")>>,
            <<Hd("Content-Type", MsgpackType), Hd("X-Fx-One", "1")>>, <<Hd("Content-Type", JsonType)>>, <<Hd("Content-Type", "")>>, <<St(200), Hd("X-Fx-Late", "1")>>,
            <<St(103)>>, <<St(102), Hd("X-Fx-One", "1")>>, <<Hd("X-Fx-Early", "e"), St(103), St(200)>>,
            <<St(204)>>, <<St(304)>>, <<St(103), St(404), Wr("gone")>>,
            <<St(403), St(200)>>, <<St(500), St(404), Wr("twice")>>, <<St(201), St(200), Wr("a"), Wr("b")>>,
            <<Hd("Content-Type", "text/html; charset=utf-8"), St(404), Wr("<h1>404</h1>")>>,
            <<Hd("X-Fx-One", "1"), St(401), Hd("X-Fx-Late", "1")>>,
            <<Hd("Content-Type", "application/json"), Hd("X-Fx-One", "x"), St(422), Wr("{}")>>,
            <<Hd("Content-Length", "3"), St(400), Wr("abc")>>}
           \cup {<<St(n)>> : n \in Finals} \cup {<<St(n), Wr("body of "), Wr("mine")>> : n \in Finals}
\* text without taking over: the reply follows (a Go client cannot read that)
Early == {<<Wr("early ")>>, <<St(200), Wr("early")>>, <<Hd("X-Fx-One", "1"), Wr("e")>>, <<St(103), Wr("early ")>>}
Sessions == {[Base(x) EXCEPT !.script = s, !.enc = e, !.inst = i] :
               x \in {y \in SM : Sess(y)}, s \in Scripts, e \in Encs, i \in BOOLEAN}
            \cup {[Raw(x) EXCEPT !.script = s, !.ct = c] : x \in {y \in SM : Sess(y)}, s \in Early, c \in {MsgpackType, JsonType}}
            \cup {[Raw(x) EXCEPT !.script = s, !.ct = c] : x \in {y \in SM : Sess(y)}, s \in Scripts,
                     c \in {MsgpackType, JsonType, ""}}
            \cup {[Base(x) EXCEPT !.script = s, !.errk = k] : x \in {y \in SM : Sess(y) /\ HasErr(y)}, s \in Scripts,
                     k \in {"plain", "wrap", "coded"}}
            \cup {[Base(x) EXCEPT !.enc = e, !.prof = p] : x \in {y \in SM : Sess(y)}, e \in Encs,
                     p \in {"rand", "big", "zero"}}

\* --- statistics and monitoring: every outcome of a request, instrumented or not
Outcomes == {[Raw(x) EXCEPT !.path = p, !.ct = c, !.inst = i] :
               x \in SM, p \in {"exact", "unknown"}, c \in {MsgpackType, JsonType}, i \in BOOLEAN}
            \cup {[Raw(x) EXCEPT !.verb = v] : x \in SM, v \in {"GET", "OPTIONS", "HEAD"}}
            \cup {[Raw(x) EXCEPT !.body = b, !.ct = c] : x \in {y \in SM : HasArgs(y)}, b \in {"empty", "garbage", "extra"},
                     c \in {MsgpackType, JsonType}}
            \cup {[Base(x) EXCEPT !.errk = k, !.enc = "msgpack", !.prof = p] : x \in {y \in SM : HasErr(y)},
                     k \in {"nil", "plain", "wrap", "coded", "fail", "codedval"}, p \in {"tag", "rand", "big"}}
            \cup {[Raw(x) EXCEPT !.errk = k, !.ct = JsonType] : x \in {y \in SM : HasErr(y)},
                     k \in {"nil", "plain", "wrap", "coded", "fail", "codedval"}}
            \cup {[Raw(x) EXCEPT !.unenc = TRUE, !.ct = c] : x \in {<<"Alpha", "Opaque">>, <<"Alpha", "Gated">>,
                     <<"Beta", "SessGated">>}, c \in {MsgpackType, JsonType}}
            \cup {[Base(x) EXCEPT !.enc = e, !.prof = p] : x \in SM, e \in Encs, p \in {"rand", "big"}}
            \cup {[Base(x) EXCEPT !.script = s, !.enc = e, !.errk = k] : x \in {y \in SM : Sess(y)}, e \in {"msgpack"},
                     k \in {"nil", "plain"},
                     s \in {<<>>, <<St(200)>>, <<St(204)>>, <<St(404), Wr("nope")>>, <<St(103)>>, <<Hd("X-Fx-One", "1")>>}}

Wanted == CASE Family = "fidelity" -> Fidelity [] Family = "routing" -> Routing [] Family = "bodies" -> Bodies
            [] Family = "wire" -> Wire [] Family = "headers" -> Headers [] Family = "failures" -> Failures
            [] Family = "sessions" -> Sessions [] Family = "outcomes" -> Outcomes

ASSUME JsonSerialize("cases.json", SetToSeq(Wanted))

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
