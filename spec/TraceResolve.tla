---------------------------- MODULE TraceResolve ----------------------------
(* Judges which directories the generator read and wrote (C22). *)
EXTENDS Resolve, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Worlds == JsonDeserialize("env.json").worlds
VARIABLES tr, l
Step(ev) ==
  LET c == Worlds[ev.w]
      needed == Range(c.tgts) \cup {c.pkgs[i].p : i \in 1 .. Len(c.pkgs)}
  IN CASE ev.e = "run" -> (ev.rc = 0) <=> \A p \in needed : Found(c.w, p) # {}
       [] ev.e = "partial" -> ev.files = <<>>
       [] ev.e = "read" -> ev.d \in Found(c.w, ev.p)
       [] ev.e = "wrote" -> Range(ev.ds) = {OutDir(c.w, ev.p)}
       [] OTHER -> FALSE
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
