----------------------------- MODULE TraceGoRpc -----------------------------
EXTENDS GoRpc, Json, TLCExt
Env == JsonDeserialize("env.json")
MCSvcs == Env.svcs
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<calls, handler, up, tr, l>>
Step(ev) ==
  CASE ev.e = "setup"  -> Setup(ev.handler)
    [] ev.e = "call"   -> Call(ev.k, ev.svc, ev.m, ev.args, ev.fault)
    [] ev.e = "exec"   -> Exec(ev.svc, ev.m, ev.w, ev.r, ev.args, ev.rets)
    [] ev.e = "stat"   -> Stat(ev.pkg, ev.svc, ev.func, ev.negative)
    [] ev.e = "return" -> Return(ev.k, ev.rets)
    [] ev.e = "fail"   -> Fail(ev.k, ev.zero)
    [] ev.e = "end"    -> End
    [] OTHER -> FALSE
TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
