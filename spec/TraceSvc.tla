------------------------------- MODULE TraceSvc -------------------------------
(* Judges the Go code and the TypeScript clients generated for services (C19, C20). *)
EXTENDS Service, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Progs == JsonDeserialize("env.json").progs
VARIABLES tr, l
Step(ev) ==
  LET p == Progs[ev.p]
  IN CASE ev.e = "ok" -> TRUE
       [] ev.e = "object" -> ObjectAs(p.target, p.svcs[ev.s], ev.o)
       [] ev.e = "endpoint" -> ev.ep = p.svcs[ev.s].ep
       [] ev.e = "call" -> CallAs(p.svcs[ev.s], ev)
       [] ev.e = "class" -> ClassAs(p.target, p.svcs[ev.s], ev.c)
       [] ev.e = "function" -> FunctionAs(p.svcs[ev.s], ev)
       [] OTHER -> FALSE
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
===============================================================================
