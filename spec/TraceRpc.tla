----------------------------- MODULE TraceRpc -----------------------------
(* Is every recorded behaviour of the real code a behaviour of Rpc?        *)
EXTENDS Rpc, Json, TLCExt

Env    == JsonDeserialize("env.json")
Traces == JsonDeserialize("traces.json")
MCSvcs  == Env.svcs
MCFocus == Range(Env.focus)

VARIABLES tr, l
tvars == <<cfg, calls, tr, l>>

Pairs(s) == {s[i] : i \in DOMAIN s}

Step(ev) ==
  CASE ev.e = "cfg"     -> Configure(ev.c, ev.enc, Pairs(ev.hdrs), ev.via, ev.base)
    [] ev.e = "hcheck"  -> HeaderCheck(ev.c, Pairs(ev.hdrs))
    [] ev.e = "begin"   -> Begin(ev.k, ev.c, ev.svc, ev.ep, ev.m, ev.args, ev.fault)
    [] ev.e = "send"    -> Send(ev.k, ev.verb, ev.url, Pairs(ev.hdrs), ev.via)
    [] ev.e = "recv"    -> Recv(ev.k, [svc |-> ev.svc, ep |-> ev.ep, verb |-> ev.verb, path |-> ev.path,
                                       ctype |-> ev.ctype, clen |-> ev.clen, inst |-> ev.inst,
                                       fit |-> ev.fit, bodyok |-> ev.bodyok, args |-> ev.args])
    [] ev.e = "exec"    -> Exec(ev.k, ev.svc, ev.m, ev.args, ev.sess)
    [] ev.e = "hstatus" -> HandlerStatus(ev.k, ev.n)
    [] ev.e = "hheader" -> HandlerHeader(ev.k, ev.h)
    [] ev.e = "hwrite"  -> HandlerWrite(ev.k, ev.t)
    [] ev.e = "ret"     -> Return(ev.k, ev.rets, ev.unenc, ev.last)
    [] ev.e = "mon"     -> Monitored(ev.k, ev.args, ev.rets, ev.req, ev.blen, ev.stats)
    [] ev.e = "end"     -> End(ev.k, [status |-> ev.status, blen |-> ev.blen, panic |-> ev.panic])
    [] ev.e = "stats"   -> Stats(ev.k, ev)
    [] ev.e = "close"   -> Close(ev.k)
    [] ev.e = "got"     -> Got(ev.k, [ev EXCEPT !.hdrs = Pairs(ev.hdrs)])
    [] ev.e = "done"    -> Done(ev.k, ev)
    [] ev.e = "fin"     -> Fin(ev.k)
    [] ev.e = "kept"    -> Kept(ev.k, ev.args, ev.rets, ev.held, ev.mon)
    [] OTHER -> FALSE

TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr

\* a register per trace holds the number of the first event not explained
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
