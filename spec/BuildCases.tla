----------------------------- MODULE BuildCases -----------------------------
(***************************************************************************)
(* Histories of runs over one directory tree, built in simulation: changes *)
(* of configuration and sources, and damage done to files before a run.    *)
(***************************************************************************)
EXTENDS BuildRun, Json
Env == JsonDeserialize("env.json")
VARIABLES hist, src, cfg, todo, conf, phase
vars == <<hist, src, cfg, todo, conf, phase>>

Uses(v) == [s \in DOMAIN Env.uses[v] |-> RangeOf(Env.uses[v][s])]
T == <<[n |-> "a", dir |-> "s1", svcs |-> <<"A", "B">>, outs |-> {"", "ts/a-client.ts", "ts/x/a.ts", "~/gen/deep/a.ts", "ts/x/more/deep/a.ts"}],
       [n |-> "b", dir |-> "s2", svcs |-> <<"C", "E">>, outs |-> {"", "ts/b-client.ts", "~/b.ts"}],
       [n |-> "c", dir |-> "s3/v2", svcs |-> <<"D">>, outs |-> {"", "ts/c-client.ts", "./ts//y/./c.ts"}]>>
Maps == [m0 |-> [d1 |-> "ts/d1.ts", d2 |-> "ts/d2.ts", listed |-> {}],
         m1 |-> [d1 |-> "ts/other/d1.ts", d2 |-> "ts/d2.ts", listed |-> {"d2"}],
         m3 |-> [d1 |-> "~/types/d1.ts", d2 |-> "gen/types/v1/d2.ts", listed |-> {}],
         m2 |-> [d1 |-> "ts/d1.ts", d2 |-> "-", listed |-> {}]]
MapSeq(v) ==
  LET M == Maps[v]
      base == <<[pkg |-> "s1", out |-> "ts/s1.ts", listed |-> {}], [pkg |-> "s2", out |-> "ts/s2.ts", listed |-> {}],
                [pkg |-> "s3/v2", out |-> "ts/s3.ts", listed |-> {}], [pkg |-> "d1", out |-> M.d1, listed |-> {}],
                [pkg |-> "d3", out |-> "ts/d3.ts", listed |-> {}]>>
  IN IF M.d2 = "-" THEN base ELSE Append(base, [pkg |-> "d2", out |-> M.d2, listed |-> M.listed])

Empty == [targets |-> <<>>, maps |-> <<>>, mv |-> ""]
Init ==
  /\ hist = <<>> /\ src = 1 /\ cfg = Empty /\ todo = <<>> /\ phase = "maps"
  /\ conf \in [n : 2 .. Env.n]

ChooseMaps ==
  /\ phase = "maps" /\ Len(hist) < conf.n
  /\ \E m \in {"m0", "m1", "m2", "m3"}, v \in 1 .. Len(Env.uses), again \in BOOLEAN :
       IF again /\ Len(hist) > 0
       THEN cfg' = hist[Len(hist)].cfg /\ src' = (IF v = 1 THEN src ELSE v) /\ phase' = "damage" /\ todo' = <<>>     \* once more
       ELSE cfg' = [targets |-> <<>>, maps |-> MapSeq(m), mv |-> m] /\ src' = v /\ phase' = "targets" /\ todo' = T
  /\ UNCHANGED <<hist, conf>>
NonEmpty(s) == {x \in SUBSET RangeOf(s) : x # {}}
ChooseTarget ==
  /\ phase = "targets" /\ todo # <<>>
  /\ LET t == Head(todo)
     IN \E on \in BOOLEAN, alias \in BOOLEAN : \E out \in t.outs, svcs \in NonEmpty(t.svcs) : \E ts, go \in SUBSET svcs, skip \in BOOLEAN :
          cfg' = [cfg EXCEPT !.targets = IF on THEN Append(@, [n |-> (IF alias THEN "z" ELSE "") \o t.n, dir |-> t.dir, svcs |-> svcs, ts |-> ts, go |-> go, skip |-> skip, out |-> out]) ELSE @]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<hist, src, conf, phase>>
TargetsDone ==
  /\ phase = "targets" /\ todo = <<>> /\ phase' = IF cfg.targets = <<>> THEN "maps" ELSE "damage"
  /\ UNCHANGED <<hist, src, cfg, todo, conf>>
Hows == {"junk", "gone", "empty", "cut", "tail", "crlf", "edit", "case"}
Damage ==
  /\ phase = "damage" /\ Len(todo) < 3
  /\ \E p \in Paths(Owned(Uses(src), cfg)) \cup Stale(cfg), h \in Hows : todo' = Append(todo, [path |-> p, how |-> h])
  /\ UNCHANGED <<hist, src, cfg, conf, phase>>
Run ==
  /\ phase = "damage"
  /\ hist' = Append(hist, [cfg |-> cfg, src |-> src, damage |-> todo, owned |-> Owned(Uses(src), cfg)])
  /\ phase' = "maps" /\ todo' = <<>>
  /\ UNCHANGED <<src, cfg, conf>>
Finish ==
  /\ phase = "maps" /\ Len(hist) = conf.n /\ phase' = "end"
  /\ PrintT("PROG " \o ToJson([hist |-> hist]))
  /\ UNCHANGED <<hist, src, cfg, todo, conf>>
Next == ChooseMaps \/ ChooseTarget \/ TargetsDone \/ Damage \/ Run \/ Finish
=============================================================================
