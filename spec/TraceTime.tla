----------------------------- MODULE TraceTime -----------------------------
EXTENDS TimeCodec, Json, TLCExt
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<at, val, enc, pos, tr, l>>
Step(ev) ==
  CASE ev.e = "start" -> Start(ev.t, ev.enc, ev.pos)
    [] ev.e = "raw"   -> StartRaw(ev.w, ev.pos)
    [] ev.e = "send"  -> Send(ev.w)
    [] ev.e = "recv"  -> Recv(ev.t)
    [] ev.e = "reply" -> Reply(ev.w)
    [] ev.e = "got"   -> Got(ev.t)
    [] OTHER -> FALSE
TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
