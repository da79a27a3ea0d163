----------------------------- MODULE TraceConfig -----------------------------
(* Judges loaded configurations (C23). *)
EXTENDS Config, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Docs == JsonDeserialize("env.json").docs
VARIABLES tr, l
Named(doc, n) == CHOOSE t \in Range(doc.targets) : t.n = n
Step(ev) ==
  LET c == Docs[ev.c]
  IN CASE ev.e = "load" -> Loaded(c.doc, c.loc, ev.r)
       [] ev.e = "exposes" -> LET t == Named(c.doc, ev.t) IN ev.ts = IsTSRPC(t, ev.s) /\ ev.go = IsGoRPC(t, ev.s)
       [] ev.e = "cli" -> Fails(c.doc, c.loc) => ev.rc # 0 /\ ev.files = <<>>
       [] OTHER -> FALSE
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
==============================================================================
