----------------------------- MODULE TraceUnion -----------------------------
EXTENDS UnionCodec, Json, TLCExt
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<set, own, omit, state, tr, l>>
Step(ev) ==
  CASE ev.e = "make" -> Make(ev.n, ev.set, ev.own, ev.omit)
    [] ev.e = "sent" -> Sent(ev.wire)
    [] OTHER -> FALSE
TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
