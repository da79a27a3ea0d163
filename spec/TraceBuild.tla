----------------------------- MODULE TraceBuild -----------------------------
(* Judges recorded histories of runs (C16, C21). *)
EXTENDS BuildRun, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Env == JsonDeserialize("env.json")
VARIABLES tr, l
Uses(v) == [s \in DOMAIN Env.uses[v] |-> RangeOf(Env.uses[v][s])]
Cfg(c) == [targets |-> [i \in DOMAIN c.targets |-> [c.targets[i] EXCEPT !.svcs = RangeOf(@), !.ts = RangeOf(@), !.go = RangeOf(@)]],
           maps |-> [i \in DOMAIN c.maps |-> [c.maps[i] EXCEPT !.listed = RangeOf(@)]], mv |-> c.mv]
Tree(t) == [p \in DOMAIN t |-> t[p]]
Step(ev) ==
  CASE ev.e = "run" ->
         LET c == Cfg(ev.cfg)  u == Uses(ev.src)
         IN /\ ev.ok = ~Fails(u, c)
            /\ "others" \in RangeOf(Env.focus) => OthersSame(u, c, ev.before, ev.after)
            /\ ev.ok => /\ "files" \in RangeOf(Env.focus) => Files(u, c, ev.after)
                        /\ "content" \in RangeOf(Env.focus) => Content(u, c, ev.after, ev.ref)
                        /\ "untouched" \in RangeOf(Env.focus) => Untouched(u, c, ev.before, ev.after)
    [] ev.e = "same" -> \A i, j \in DOMAIN ev.trees : ev.trees[i] = ev.trees[j]
    [] ev.e = "again" -> \A p \in DOMAIN ev.before : p \in DOMAIN ev.after /\ ev.before[p] = ev.after[p]
    [] OTHER -> FALSE
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l]) = TRUE
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
