------------------------------- MODULE MCRpc -------------------------------
(***************************************************************************)
(* Model check of Rpc on a small instance: one call, made by a Go client   *)
(* or as a raw request, in which every party may do anything the rules     *)
(* allow, in any order.  The invariants say what a user is promised about  *)
(* a call as a whole; that the step rules of Rpc add up to them is what is *)
(* checked here.  Wrong values are offered to every step, so that a rule   *)
(* that is missing shows as a violated invariant.                          *)
(***************************************************************************)
EXTENDS Rpc
CONSTANT Small   \* the instance of quick runs
VARIABLE fin
mvars == <<cfg, calls, fin>>

MCSvcs == [S |-> [pkg |-> "p", ms |-> [A |-> [nargs |-> 1, nrets |-> 1, sess |-> FALSE, errs |-> <<>>, lasterr |-> FALSE],
                                       Z |-> [nargs |-> 0, nrets |-> 0, sess |-> TRUE, errs |-> <<>>, lasterr |-> FALSE]]]]
MCFocus == {"route", "args", "rets", "err", "wire", "hdr", "stats", "mon", "sess"}
K == "k"
Vals == IF Small THEN {"u"} ELSE {"u", "v"}
Tup(n) == [1 .. n -> Vals]
N(m) == IF m \in {"A", "Z"} THEN MCSvcs.S.ms[m].nargs ELSE 1
R(m) == IF m \in {"A", "Z"} THEN MCSvcs.S.ms[m].nrets ELSE 1
c0 == Call(K)
Nil == [nil |-> TRUE, code |-> 0, type |-> "", msg |-> ""]
Err == [nil |-> FALSE, code |-> 1, type |-> "t", msg |-> "m"]
Faults == {"none", "encode", "ctxmid", "status"}
\* the right figures of a call, and figures with a field wrong
Figures(b) == LET n == IF Targets("S", "/s", c0.r.path) = {} THEN "" ELSE Method(c0.r)
               ok == [svc |-> "S", func |-> n, pkg |-> "p", req |-> IF n = "A" THEN 1 ELSE 0, resp |-> b, code |-> 0, type |-> "", msg |-> "", durs |-> TRUE]
           IN {ok, [ok EXCEPT !.func = ""], [ok EXCEPT !.req = 7], [ok EXCEPT !.resp = 7], [ok EXCEPT !.code = 1, !.type = "t", !.msg = "m"], [ok EXCEPT !.code = 1]}
Types == {MsgpackType, JsonType}
Hdrs == {<<"X", <<"x">>>>}

Sends == \E verb \in {"POST", "GET"}, url \in {"u/s/A", "u/s/Z"}, hdrs \in {Outgoing("c"), Hdrs}, via \in {"d"} :
            /\ Has(K) /\ c0.client /\ ~c0.done /\ Send(K, verb, url, hdrs, via)
Recvs == \E verb \in {"POST", "GET", "OPTIONS"}, path \in {"/s/A", "/s/Z", "/s/X"}, ctype \in Types, inst \in IF Small THEN {TRUE} ELSE BOOLEAN, fit \in BOOLEAN, bodyok \in BOOLEAN :
         \E args \in Tup(IF path = "/s/A" THEN 1 ELSE 0) :
            /\ (IF Has(K) THEN c0.client /\ c0.sent /\ c0.fault # "refused" ELSE TRUE)
            /\ Recv(K, [svc |-> "S", ep |-> "/s", verb |-> verb, path |-> path, ctype |-> ctype, clen |-> 1, inst |-> inst, fit |-> fit, bodyok |-> bodyok, args |-> args])
Execs == \E m \in {"A", "Z"}, ok \in BOOLEAN : \E args \in Tup(N(m)) : c0.recv /\ ~c0.end /\ Exec(K, "S", m, args, [w |-> ok, r |-> ok])
Handler == /\ c0.execs = 1 /\ ~c0.ret /\ Sig(c0.r).sess
           /\ \/ \E n \in {103, 200, 302} : c0.hs = 0 /\ HandlerStatus(K, n)
              \/ TakenOver(c0) /\ ~c0.hbody /\ HandlerWrite(K, "w")
Returns == /\ c0.execs > 0 /\ ~c0.ret
           /\ \E rets \in Tup(Sig(c0.r).nrets), unenc \in BOOLEAN, last \in {Nil, Err} :
                /\ (Sig(c0.r).nrets = 0 => ~unenc /\ last.nil)
                /\ Return(K, rets, unenc, last)
Monitors == /\ c0.recv /\ ~c0.end
            /\ \E args \in {<<>>, <<"u">>, <<"v">>}, rets \in {<<>>, <<"u">>, <<"v">>}, req \in BOOLEAN, blen \in {0, 2} :
               \E s \in Figures(blen) : Monitored(K, args, rets, req, blen, s)
Ends == /\ c0.recv /\ ~c0.end
        /\ \E st \in {200, 302, 400, 404, 405, 500}, blen \in {0, 2}, p \in BOOLEAN : End(K, [status |-> st, blen |-> blen, panic |-> p])
Figured == c0.end /\ ~c0.close /\ \E s \in Figures(c0.e.blen) : Stats(K, s)
Closes == c0.end /\ ~c0.close /\ Close(K)
\* the network carries the response as it is, or the fault's
Gots == /\ Has(K) /\ ~c0.got /\ (c0.client => c0.sent /\ ~c0.done) /\ c0.end /\ c0.fault \notin {"refused", "ctxmid", "closed"}
        /\ LET over == TakenOver(c0)
               run == Class(c0.r) = "run" /\ c0.ret
           IN \E ctype \in Types \cup {""}, vals \in {<<>>, <<"u">>, <<"v">>} :
              Got(K, [status |-> IF c0.fault = "status" THEN 503 ELSE IF run /\ over THEN c0.hs ELSE c0.e.status, ok |-> ctype # "", cnt |-> Len(vals), vals |-> vals,
                      ctype |-> ctype, clen |-> c0.e.blen, n |-> c0.e.blen, text |-> IF run /\ over THEN c0.htext ELSE "b", readerr |-> FALSE, hdrs |-> {}])
Dones == /\ c0.client /\ ~c0.done /\ (c0.fault = "encode" \/ c0.sent) /\ (c0.fault \in {"none", "status"} => c0.got)
         /\ LET g == IF c0.got THEN c0.g ELSE [status |-> 0, text |-> ""]
                bad == [nil |-> FALSE, ce |-> TRUE, he |-> TRUE, code |-> g.status, body |-> g.text, zero |-> TRUE, cause |-> TRUE, rets |-> <<>>]
            IN \E d \in {bad, [bad EXCEPT !.ce = FALSE], [bad EXCEPT !.he = FALSE], [bad EXCEPT !.code = 7], [bad EXCEPT !.body = "x"], [bad EXCEPT !.zero = FALSE], [bad EXCEPT !.cause = FALSE],
                          [bad EXCEPT !.nil = TRUE], [bad EXCEPT !.nil = TRUE, !.rets = <<"u">>], [bad EXCEPT !.nil = TRUE, !.rets = <<"v">>]} : Done(K, d)
Fins == /\ Has(K) /\ ~fin /\ (c0.client => c0.done) /\ (~c0.client => c0.got) /\ (c0.recv => c0.close) /\ Fin(K) /\ fin' = TRUE

MCInit == fin = FALSE /\ calls = <<>> /\ \E enc \in IF Small THEN {"msgpack"} ELSE {"msgpack", "json"} : cfg = [c |-> [enc |-> enc, hdrs |-> Hdrs, via |-> "d", base |-> "u"]]
Begins == \E m \in {"A", "Z"}, f \in Faults : \E a \in Tup(N(m)) : (f = "encode" => m = "A") /\ Begin(K, "c", "S", "/s", m, a, f)
MCNext == \/ fin' = fin /\ ~fin /\ (Begins \/ Sends \/ Recvs \/ Execs \/ Handler \/ Returns \/ Monitors \/ Ends \/ Figured \/ Closes \/ Gots \/ Dones)
          \/ Fins
MCSpec == MCInit /\ [][MCNext]_mvars

(* what a call as a whole is promised *)
C01 == fin /\ c0.recv => /\ c0.execs = (IF c0.r.verb = "POST" /\ c0.r.path \in {"/s/A", "/s/Z"} /\ (c0.r.path = "/s/A" => c0.r.fit) THEN 1 ELSE 0)
                         /\ c0.execs = 0 => c0.e.status = (CASE c0.r.verb = "OPTIONS" -> 200 [] c0.r.verb = "GET" -> 405 [] c0.r.path = "/s/X" -> 404 [] OTHER -> 400)
C02 == fin /\ c0.client /\ c0.fault = "none" /\ ~c0.unenc /\ c0.hs \in {0, 200} => c0.d.nil /\ c0.execs = 1 /\ c0.x = c0.args /\ c0.d.rets = c0.rets /\ c0.r.path = "/s/" \o c0.m
C04 == fin /\ c0.client => /\ c0.d.nil => c0.fault = "none" /\ c0.got /\ c0.g.status = 200
                           /\ ~c0.d.nil => c0.d.ce
                           /\ c0.got /\ c0.g.status # 200 => c0.d.he /\ c0.d.code = c0.g.status /\ c0.d.zero
                           /\ c0.fault # "none" => ~c0.d.nil
C05 == fin /\ Undisturbed(c0) /\ Class(c0.r) = "run" /\ ~c0.unenc /\ c0.hs \in {0, 200} => c0.g.status = 200 /\ c0.g.ctype = c0.r.ctype /\ c0.g.clen = c0.g.n /\ c0.g.vals = c0.rets
C06 == Has(K) /\ c0.client /\ c0.recv => c0.r.verb = "POST" /\ c0.r.path = "/s/" \o c0.m /\ c0.r.ctype = TypeOf(cfg.c.enc)
C09 == fin /\ c0.recv /\ c0.r.verb = "POST" => c0.nstats = IF c0.r.inst /\ c0.r.path # "/s/X" THEN 1 ELSE 0
C10 == fin /\ Undisturbed(c0) /\ c0.hs = 302 => c0.g.status = 302 /\ c0.g.text = c0.htext /\ c0.g.ctype \notin Types /\ (c0.client => ~c0.d.nil)
C11 == fin /\ c0.recv => /\ c0.mons <= c0.execs
                         /\ c0.execs = 1 /\ (~c0.unenc \/ c0.hs = 302) /\ ~Severed(c0) => c0.mons = 1
                         /\ c0.mons = 1 => c0.ms.svc = "S" /\ c0.ms.func = Method(c0.r)
C25 == Has(K) /\ c0.recv /\ ~c0.r.fit /\ c0.r.path = "/s/A" => c0.execs = 0 /\ (c0.end /\ c0.r.verb = "POST" => c0.e.status = 400)
(* not vacuous: each of these is reached (checked as the negation of an invariant) *)
ReachOk    == ~(fin /\ c0.client /\ c0.fault = "none" /\ c0.d.nil /\ c0.r.path = "/s/A" /\ c0.r.inst)
ReachTaken == ~(fin /\ Undisturbed(c0) /\ c0.hs = 302 /\ c0.client /\ c0.mons = 1)
ReachRaw   == ~(fin /\ ~c0.client /\ c0.execs = 1 /\ c0.nstats = 1 /\ ~c0.last.nil)
ReachBad   == ~(fin /\ ~c0.client /\ c0.recv /\ c0.e.status = 400)
ReachLost  == ~(fin /\ c0.client /\ c0.fault = "ctxmid" /\ c0.execs = 1)
=============================================================================
