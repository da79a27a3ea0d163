------------------------------- MODULE Rpc -------------------------------
(***************************************************************************)
(* Calls between gotsrpc clients and a gotsrpc HTTP proxy.                 *)
(*                                                                         *)
(* Every call has two halves that run independently: the client half       *)
(* (begin, send, got, done) and the server half (recv, exec, hw*, ret,     *)
(* mon*, end, stats*, close).  Fin joins the two halves and evaluates what *)
(* the parties were told against what really happened.                     *)
(*                                                                         *)
(* The rules are grouped in aspects; Focus is the set of aspects that are  *)
(* enforced, so that each property is decided on its own rules:            *)
(*   route  which requests run which method, how often, and their status   *)
(*   args   the arguments a method runs with                               *)
(*   rets   the results a Go client returns                                *)
(*   err    success and failure as the Go client reports them              *)
(*   wire   encoding, content type, length and shape of a reply            *)
(*   hdr    the outgoing request of a Go client and its configuration      *)
(*   stats  the call statistics                                            *)
(*   mon    the monitor hook                                               *)
(*   sess   session methods and their own response                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Svcs,   \* service -> [pkg, ms : method -> [nargs, nrets, sess, errs, lasterr]]
          Focus   \* enforced aspects

VARIABLES cfg,    \* client -> [enc, hdrs, via, base]
          calls   \* call id -> its state
vars == <<cfg, calls>>

Chk(aspect, p) == (aspect \in Focus) => p

MsgpackType == "application/msgpack; charset=utf-8"
JsonType    == "application/json; charset=utf-8"
TypeOf(enc) == IF enc = "msgpack" THEN MsgpackType ELSE JsonType
\* the encoding used for a request or reply with a given content type
EncOf(ctype) == IF ctype = MsgpackType THEN "msgpack" ELSE "json"

Range(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
\* the methods a path names: at most one
Targets(svc, ep, path) == {m \in DOMAIN Svcs[svc].ms : path = ep \o "/" \o m}

\* what the proxy has to do with a request
Class(r) ==
  LET t == Targets(r.svc, r.ep, r.path) IN
  CASE r.verb = "OPTIONS" -> "options"
    [] r.verb # "OPTIONS" /\ r.verb # "POST" -> "notpost"
    [] r.verb = "POST" /\ t = {} -> "nofunc"
    [] r.verb = "POST" /\ t # {} ->
         LET m == CHOOSE x \in t : TRUE IN
         IF Svcs[r.svc].ms[m].nargs > 0 /\ ~r.fit THEN "badargs" ELSE "run"

Method(r) == CHOOSE m \in Targets(r.svc, r.ep, r.path) : TRUE
Sig(r)    == Svcs[r.svc].ms[Method(r)]

StatusOf(class) ==
  CASE class = "options" -> 200
    [] class = "notpost" -> 405
    [] class = "nofunc"  -> 404
    [] class = "badargs" -> 400

\* headers of an outgoing request: the defaults, overridden by the promised ones
Promised(enc) == {<<"Content-Type", <<TypeOf(enc)>>>>, <<"Accept", <<TypeOf(enc)>>>>,
                  <<"X-Foomo-S2s", <<"true">>>>}
\* names of headers mean the same in any case
PromisedNames == {"Content-Type", "Accept", "X-Foomo-S2s", "content-type", "ACCEPT", "x-foomo-S2S"}
Outgoing(c) == {h \in cfg[c].hdrs : h[1] \notin PromisedNames} \cup Promised(cfg[c].enc)

(***************************************************************************)
(* State of a call                                                         *)
(***************************************************************************)
NewCall ==
  [client |-> FALSE, c |-> "", svc |-> "", ep |-> "", m |-> "", args |-> <<>>, fault |-> "none",
   enc |-> "", sent |-> FALSE, got |-> FALSE, g |-> <<>>, done |-> FALSE, d |-> <<>>,
   recv |-> FALSE, r |-> <<>>, execs |-> 0, x |-> <<>>, ret |-> FALSE, rets |-> <<>>, unenc |-> FALSE,
   last |-> <<>>, hs |-> 0, hbody |-> FALSE, htext |-> "", hhdr |-> {}, mons |-> 0, mb |-> 0,
   end |-> FALSE, e |-> <<>>, nstats |-> 0, hstats |-> <<>>, ms |-> <<>>, ma |-> <<>>, mr |-> <<>>, close |-> FALSE, panic |-> FALSE]

Init == cfg = <<>> /\ calls = <<>>

Has(k)    == k \in DOMAIN calls
Call(k)   == IF Has(k) THEN calls[k] ELSE NewCall
Upd(k, c) == calls' = (k :> c) @@ calls

\* did the session method take over the response?  (1xx are interim, the first final status counts)
TakenOver(c) == c.hs # 0 /\ c.hs # 200

(***************************************************************************)
(* Client half                                                             *)
(***************************************************************************)
\* a client gets its configuration; header lists are sets of <<name, values>>
Configure(c, enc, hdrs, via, base) ==
  /\ cfg' = (c :> [enc |-> enc, hdrs |-> hdrs, via |-> via, base |-> base]) @@ cfg
  /\ UNCHANGED calls

\* the user looks at the header map it gave to the client
HeaderCheck(c, hdrs) ==
  /\ Chk("hdr", hdrs = cfg[c].hdrs)
  /\ UNCHANGED vars

Begin(k, c, svc, ep, m, args, fault) ==
  /\ ~Has(k)
  /\ Upd(k, [NewCall EXCEPT !.client = TRUE, !.c = c, !.svc = svc, !.ep = ep, !.m = m,
                            !.args = args, !.fault = fault, !.enc = cfg[c].enc])
  /\ UNCHANGED cfg

\* the request leaves the client through an HTTP client
Send(k, verb, url, hdrs, via) ==
  LET c == Call(k) IN
  \* a call makes one request, whatever happens to it
  /\ Chk("err", ~c.sent)
  /\ Chk("hdr", ~c.sent)
  /\ Chk("hdr", verb = "POST")
  /\ Chk("hdr", url = cfg[c.c].base \o c.ep \o "/" \o c.m)
  /\ Chk("hdr", hdrs = Outgoing(c.c))
  /\ Chk("hdr", via = cfg[c.c].via)
  /\ Chk("err", c.fault \notin {"encode", "badurl"})
  /\ Upd(k, [c EXCEPT !.sent = TRUE])
  /\ UNCHANGED cfg

\* the response as the client (or the user of a raw request) receives it
Got(k, g) ==
  LET c == Call(k) IN
  /\ Upd(k, [c EXCEPT !.got = TRUE, !.g = g])
  /\ UNCHANGED cfg

\* the reply can be turned into results by the client
Decodes(c) ==
  /\ c.g.ok
  /\ ~(EncOf(c.g.ctype) = "json" /\ c.ret /\ \E i \in Range(Svcs[c.svc].ms[c.m].errs) : c.rets[i] # "nil")

Completes(c) == c.got /\ ~c.g.readerr /\ c.g.status = 200 /\ Decodes(c)

Done(k, d) ==
  LET c == Call(k) IN
  /\ ~c.done
  /\ Chk("err", d.nil = Completes(c))
  /\ Chk("err", ~d.nil => d.ce)
  /\ Chk("err", (c.got /\ ~c.g.readerr /\ c.g.status # 200) =>
                  (~d.nil /\ d.he /\ d.code = c.g.status /\ d.body = c.g.text /\ d.zero))
  /\ Chk("err", c.fault \in {"ctxpre", "ctxmid", "deadline", "refused", "trunc", "late", "cut", "cuthalf",
                                 "eof", "reset", "timeout"} => (~d.nil /\ d.cause))
  /\ Chk("err", c.fault \in {"closed", "early"} => ~d.nil)
  /\ Chk("err", c.fault = "encode" => (~d.nil /\ ~c.sent))
  /\ Chk("err", c.fault = "badurl" => (~d.nil /\ ~c.sent))
  \* a call nothing interfered with succeeds
  /\ Chk("args", (c.fault = "none" /\ c.ret /\ ~c.unenc /\ ~TakenOver(c)
                    /\ ~(c.enc = "json" /\ \E i \in Range(Svcs[c.svc].ms[c.m].errs) : c.rets[i] # "nil"))
                  => d.nil)
  /\ Chk("rets", (d.nil /\ c.fault \in {"none", "reenc"}) => (c.ret /\ d.rets = c.rets))
  /\ Upd(k, [c EXCEPT !.done = TRUE, !.d = d])
  /\ UNCHANGED cfg

(***************************************************************************)
(* Server half                                                             *)
(***************************************************************************)
\* a request reaches the proxy; r.args are the argument values its body holds, r.fit says
\* whether the body holds values for the parameters of the method the path names
Recv(k, r) ==
  LET c == Call(k) IN
  /\ ~c.recv
  /\ Chk("args", c.client => (r.bodyok /\ (c.fault = "none" => r.args = c.args)))
  /\ Chk("hdr", c.client => (r.verb = "POST" /\ r.path = r.ep \o "/" \o c.m /\ r.ctype = TypeOf(c.enc)))
  /\ Upd(k, [c EXCEPT !.recv = TRUE, !.r = r])
  /\ UNCHANGED cfg

Exec(k, svc, m, args, sess) ==
  LET c == Call(k) IN
  /\ Chk("route", c.recv /\ ~c.end /\ c.execs = 0)
  /\ Chk("route", Class(c.r) = "run" /\ svc = c.r.svc /\ m = Method(c.r))
  /\ Chk("args", args = c.r.args)
  /\ Chk("args", c.client => args = c.args)
  /\ Chk("sess", (Class(c.r) = "run" /\ Sig(c.r).sess) => (sess.w /\ sess.r))
  /\ Chk("sess", (Class(c.r) = "run" /\ Sig(c.r).sess) => args = c.r.args)
  /\ Upd(k, [c EXCEPT !.execs = @ + 1, !.x = args])
  /\ UNCHANGED cfg

\* the session method uses the response writer
HandlerStatus(k, n) ==
  LET c == Call(k) IN
  /\ Upd(k, [c EXCEPT !.hs = IF (n >= 200 \/ n = 101) /\ @ = 0 THEN n ELSE @])
  /\ UNCHANGED cfg
HandlerHeader(k, h) ==
  LET c == Call(k) IN
  \* headers set after the final status are not sent
  /\ Upd(k, [c EXCEPT !.hhdr = IF TakenOver(c) THEN @ ELSE @ \cup {h}])
  /\ UNCHANGED cfg
HandlerWrite(k, text) ==
  LET c == Call(k) IN
  /\ Upd(k, [c EXCEPT !.hbody = TRUE, !.htext = @ \o text])
  /\ UNCHANGED cfg

Return(k, rets, unenc, last) ==
  LET c == Call(k) IN
  /\ Chk("route", c.execs = 1 /\ ~c.ret)
  /\ Upd(k, [c EXCEPT !.ret = TRUE, !.rets = rets, !.unenc = unenc, !.last = last])
  /\ UNCHANGED cfg

\* the connection is gone before the reply is written
Severed(c) == c.fault \in {"ctxpre", "ctxmid", "deadline"}

Monitored(k, args, rets, req, blen, stats) ==
  LET c == Call(k) IN
  /\ Chk("mon", c.mons = 0 /\ c.ret /\ ~c.end)
  /\ Chk("mon", ~c.unenc)
  /\ Chk("mon", req)
  /\ Chk("mon", args = c.r.args \/ (Class(c.r) = "run" /\ Sig(c.r).nargs = 0 /\ args = <<>>))
  /\ Chk("mon", rets = IF TakenOver(c) THEN <<>> ELSE c.rets)
  /\ Chk("mon", stats.svc = c.r.svc /\ stats.func = Method(c.r) /\ stats.pkg = Svcs[c.r.svc].pkg)
  /\ Chk("mon", (~TakenOver(c) /\ ~Severed(c) /\ ~c.hbody) => stats.resp = blen)
  /\ Chk("mon", stats.durs /\ stats.req \in (IF Sig(c.r).nargs > 0 THEN {c.r.clen} ELSE {0, c.r.clen}))
  /\ Chk("mon", \/ ~c.last.nil /\ stats.code = c.last.code /\ stats.type = c.last.type /\ stats.msg = c.last.msg
                \/ (c.last.nil \/ TakenOver(c)) /\ stats.code = 0 /\ stats.type = "" /\ stats.msg = ""
                \/ Severed(c))
  /\ Upd(k, [c EXCEPT !.mons = @ + 1, !.mb = blen, !.ms = stats, !.ma = args, !.mr = rets])
  /\ UNCHANGED cfg

\* the proxy is through with the request
End(k, e) ==
  LET c == Call(k) IN
  /\ Chk("route", ~e.panic)
  /\ Chk("route", (Class(c.r) = "run") => (c.execs = 1 /\ c.ret))
  /\ Chk("route", (Class(c.r) # "run") => (c.execs = 0 /\ e.status = StatusOf(Class(c.r))))
  /\ Chk("route", (Class(c.r) = "options") => e.blen = 0)
  /\ Chk("route", (Class(c.r) = "run" /\ ~TakenOver(c) /\ ~c.unenc /\ ~Severed(c)) => e.status = 200)
  /\ Chk("wire",  (Class(c.r) = "run" /\ c.unenc /\ ~TakenOver(c)) => e.status # 200)
  /\ Chk("mon", c.mons <= 1)
  /\ Chk("mon", (c.ret /\ ~(c.unenc /\ ~TakenOver(c)) /\ ~Severed(c)) => (c.mons = 1 /\ c.mb = e.blen))
  /\ Chk("mon", c.execs = 0 => c.mons = 0)
  /\ Upd(k, [c EXCEPT !.end = TRUE, !.e = e])
  /\ UNCHANGED cfg

NoError(last) == last.nil

\* a record of statistics
FiguresOf(s) == [f \in {"pkg", "svc", "func", "req", "resp", "durs", "code", "type", "msg"} |-> s[f]]

Stats(k, s) ==
  LET c == Call(k)
      class == Class(c.r) IN
  /\ Chk("stats", c.r.inst /\ c.end /\ c.nstats = 0 /\ class # "nofunc")
  /\ Chk("stats", class \in {"run", "badargs"} =>
                    (s.pkg = Svcs[c.r.svc].pkg /\ s.svc = c.r.svc /\ s.func = Method(c.r)))
  /\ Chk("stats", class \in {"options", "notpost"} => s.func = "")
  /\ Chk("stats", s.durs)
  /\ Chk("stats", (class = "run" /\ Sig(c.r).nargs > 0) => s.req = c.r.clen)
  /\ Chk("stats", (class # "run" \/ Sig(c.r).nargs = 0) => s.req \in {0, c.r.clen})
  /\ Chk("stats", (class = "run" /\ c.ret /\ ~TakenOver(c) /\ ~c.unenc /\ ~Severed(c) /\ ~c.hbody) => s.resp = c.e.blen)
  /\ Chk("stats", (class = "run" /\ c.ret /\ ~c.unenc /\ ~Severed(c)) =>
                    \/ /\ ~c.last.nil /\ s.code = c.last.code /\ s.type = c.last.type /\ s.msg = c.last.msg
                    \/ /\ (c.last.nil \/ TakenOver(c)) /\ s.code = 0 /\ s.type = "" /\ s.msg = "")
  /\ Chk("stats", class # "run" => (s.code = 0 /\ s.type = "" /\ s.msg = ""))
  /\ Chk("mon", c.mons = 1 => (s.svc = c.ms.svc /\ s.func = c.ms.func /\ s.resp = c.ms.resp
                                /\ s.req = c.ms.req /\ s.code = c.ms.code /\ s.msg = c.ms.msg))
  /\ Upd(k, [c EXCEPT !.nstats = @ + 1, !.hstats = FiguresOf(s)])
  /\ UNCHANGED cfg

\* the instrumented handler has returned
Close(k) ==
  LET c == Call(k)
      class == Class(c.r) IN
  /\ Chk("stats", ~c.r.inst => c.nstats = 0)
  /\ Chk("stats", c.r.inst => CASE class \in {"run", "badargs"} -> c.nstats = 1
                                [] class = "nofunc" -> c.nstats = 0
                                [] OTHER -> c.nstats <= 1)
  /\ Upd(k, [c EXCEPT !.close = TRUE])
  /\ UNCHANGED cfg

\* what a caller and a method were given stays theirs, whatever happens later
Kept(k, args, rets, held, mon) ==
  LET c == Call(k) IN
  /\ Chk("args", c.execs > 0 => args = c.x)
  /\ Chk("mon", c.execs > 0 => args = c.x)
  /\ Chk("rets", (c.done /\ c.d.nil) => rets = c.d.rets)
  /\ Chk("err", (c.done /\ ~c.d.nil) => rets = c.d.rets)
  \* the handler of statistics and the monitor, too: a record stays the one of its call
  /\ Chk("stats", held = IF c.nstats = 1 THEN <<c.hstats>> ELSE <<>>)
  /\ Chk("mon", c.mons = 1 => mon = [some |-> TRUE, args |-> c.ma, rets |-> c.mr, stats |-> c.ms])
  /\ UNCHANGED vars

(***************************************************************************)
(* Both halves are over                                                    *)
(***************************************************************************)
\* what an undisturbed peer receives
ReplyRules(c) ==
  LET class == Class(c.r) IN
  /\ Chk("route", class # "run" => c.g.status = StatusOf(class))
  /\ Chk("route", class = "options" => c.g.n = 0)
  /\ IF class = "run" /\ c.ret
     THEN CASE TakenOver(c) ->
                 /\ Chk("sess", c.g.status = c.hs)
                 /\ Chk("sess", c.g.text = c.htext)
                 /\ Chk("sess", c.hhdr \subseteq c.g.hdrs)
                 /\ Chk("wire", c.g.status # 200)
                 \* nothing but an RPC reply claims to be one
                 /\ Chk("wire", (\A h \in c.hhdr : h[1] # "Content-Type") => c.g.ctype \notin {MsgpackType, JsonType})
            [] ~TakenOver(c) /\ c.unenc ->
                 Chk("wire", c.g.status = 500)
            [] ~TakenOver(c) /\ ~c.unenc /\ ~c.hbody ->
                 /\ Chk("sess", c.g.status = 200 /\ {h \in c.hhdr : h[1] # "Content-Type"} \subseteq c.g.hdrs)
                 /\ Chk("sess", Sig(c.r).sess => (c.g.ok /\ c.g.cnt = Sig(c.r).nrets))
                 /\ Chk("wire", c.g.status = 200)
                 /\ Chk("wire", c.g.ctype = TypeOf(EncOf(c.r.ctype)))
                 /\ Chk("wire", c.g.clen = c.g.n)
                 /\ Chk("wire", c.g.ok /\ c.g.cnt = Sig(c.r).nrets)
                 /\ Chk("wire", \A i \in 1 .. Sig(c.r).nrets :
                          \/ c.g.vals[i] = c.rets[i]
                          \/ /\ i \in Range(Sig(c.r).errs) /\ EncOf(c.r.ctype) = "json"
                             /\ c.rets[i] # "nil" /\ c.g.vals[i] = "E?")
            [] ~TakenOver(c) /\ ~c.unenc /\ c.hbody ->
                 Chk("sess", c.g.status = 200 /\ c.g.n > Len(c.htext))
            [] OTHER -> TRUE
     ELSE TRUE

Undisturbed(c) == c.fault = "none" /\ c.got /\ c.recv

Fin(k) ==
  LET c == Call(k) IN
  /\ Chk("args", c.client /\ c.fault = "none" => (c.sent /\ c.recv /\ c.execs = 1))
  /\ Chk("route", c.recv => (c.end /\ c.close))
  /\ Undisturbed(c) => ReplyRules(c)
  /\ UNCHANGED vars

=============================================================================
