------------------------------ MODULE TraceGen ------------------------------
(* Judges runs of the generator over programs (C17). *)
EXTENDS Gen, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Programs == JsonDeserialize("env.json").programs
VARIABLES tr, l

Step(P, ev) ==
  CASE ev.e = "run"  -> (MustFail(P) => ~ev.ok) /\ (MustSucceed(P) => ev.ok)
    [] ev.e = "types" -> \A n \in Needed(P) : DeclaredOnce(P, ev.files, n)
    [] ev.e = "names" -> Resolved(ev.files, ev.files[ev.i])
    [] OTHER -> FALSE

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Programs[Traces[tr].prog], Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
