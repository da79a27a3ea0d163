------------------------------ MODULE TraceProm ------------------------------
EXTENDS Prom, Json, TLCExt
Env == JsonDeserialize("env.json")
MCSvcs == Env.svcs
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<added, tr, l>>
Step(ev) ==
  CASE ev.e = "req"   -> Request(ev.svc, ev.m, ev.class, ev.req, ev.resp, ev.inner, ev.outer, ev.same)
    [] ev.e = "gorpc" -> GoRpc(ev.pkg, ev.svc, ev.func, ev.lo, ev.hi)
    [] ev.e = "own"   -> Own(ev.pkg, ev.svc, ev.func, ev.v, ev.cleared, ev.same)
    [] ev.e = "look"  -> Look(ev.grown)
    [] OTHER -> FALSE
TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
