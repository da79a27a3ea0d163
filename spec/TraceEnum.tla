------------------------------ MODULE TraceEnum ------------------------------
(* Judges the enums generated for packages (C24). *)
EXTENDS Enum, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Packages == JsonDeserialize("env.json").packages
VARIABLES tr, l
Step(ev) ==
  CASE ev.e = "type" -> Declared(Packages[ev.pkg], ev.t, ev.ds)
    [] OTHER -> FALSE
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
