------------------------------- MODULE Resolve -------------------------------
(***************************************************************************)
(* Which directory a package is read from, where a target's Go code goes,  *)
(* and when a run fails.                                                   *)
(* world: [mod: [n: module path or "", d: directory], gp, gr, vd,          *)
(*  reqs: Seq([p: module path, v: version]),                               *)
(*  reps: Seq([p: replaced path, v: its version or "" for all,             *)
(*             n: new path, nv: new version or "" for a directory,         *)
(*             d: that directory]),                                        *)
(*  hidden: directories (of those named here) that do not exist]           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1 .. Len(s)}
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
At(s, i) == SubSeq(s, i, i)
Index(s, c) == IF \E i \in 1 .. Len(s) : At(s, i) = c THEN CHOOSE i \in 1 .. Len(s) : At(s, i) = c ELSE 0
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, p) == SubSeq(s, Len(p) + 1, Len(s))

(* the package is the module or below it *)
Below(p, m) == p = m \/ Starts(p, m \o "/")

(* the module cache writes capital letters as ! and the small letter *)
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN ""
             ELSE (IF Index(Upper, At(s, 1)) > 0 THEN "!" \o At(Lower, Index(Upper, At(s, 1))) ELSE At(s, 1)) \o Escape(SubSeq(s, 2, Len(s)))
Cached(w, p, v) == w.gp \o "/pkg/mod/" \o Escape(p) \o "@" \o Escape(v)

Modules(w) == {r.p : r \in Range(w.reqs)} \cup {r.p : r \in {x \in Range(w.reps) : x.v = ""}}
Version(w, m) == IF \E r \in Range(w.reqs) : r.p = m THEN (CHOOSE r \in Range(w.reqs) : r.p = m).v ELSE ""
Replaced(w, m) ==
  LET at(v) == {r \in Range(w.reps) : r.p = m /\ r.v = v}
  IN IF Version(w, m) # "" /\ at(Version(w, m)) # {} THEN at(Version(w, m)) ELSE at("")
ModuleDir(w, m) ==
  IF Replaced(w, m) = {} THEN Cached(w, m, Version(w, m))
  ELSE LET r == CHOOSE r \in Replaced(w, m) : TRUE IN IF r.nv = "" THEN r.d ELSE Cached(w, r.n, r.nv)
Matching(w, p) == {m \in Modules(w) : Below(p, m)}
Longest(ms) == CHOOSE m \in ms : \A o \in ms : Len(m) >= Len(o)
Workspace(w, p) == {w.gp \o "/src/" \o p, w.gr \o "/src/" \o p, w.vd \o "/" \o p}

(* the directories a package may be read from *)
Dirs(w, p) ==
  IF w.mod.n # "" /\ Below(p, w.mod.n) THEN {w.mod.d \o Rest(p, w.mod.n)}
  ELSE IF Matching(w, p) # {} THEN LET m == Longest(Matching(w, p)) IN {ModuleDir(w, m) \o Rest(p, m)}
  ELSE Workspace(w, p)
Found(w, p) == Dirs(w, p) \ Range(w.hidden)

(* the directory of the Go code of a target *)
OutDir(w, p) == IF w.mod.n # "" /\ Below(p, w.mod.n) THEN w.mod.d \o Rest(p, w.mod.n) ELSE w.gp \o "/src/" \o p

(* all directories something that looks like the module of a package might be taken for *)
Entries(w) ==
  {[p |-> r.p, d |-> Cached(w, r.p, r.v)] : r \in Range(w.reqs)} \cup {[p |-> r.p, d |-> w.gp \o "/pkg/mod/" \o r.p \o "@" \o r.v] : r \in Range(w.reqs)}
  \cup {[p |-> r.p, d |-> IF r.nv = "" THEN r.d ELSE Cached(w, r.n, r.nv)] : r \in Range(w.reps)}
  \cup {[p |-> r.p, d |-> w.gp \o "/pkg/mod/" \o r.n \o "@" \o r.nv] : r \in {x \in Range(w.reps) : x.nv # ""}}
  \cup (IF w.mod.n = "" THEN {} ELSE {[p |-> w.mod.n, d |-> w.mod.d]})
Candidates(w, p) == Workspace(w, p) \cup {e.d \o Rest(p, e.p) : e \in {x \in Entries(w) : Starts(p, x.p)}} \cup Dirs(w, p)
==============================================================================
