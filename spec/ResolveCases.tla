---------------------------- MODULE ResolveCases ----------------------------
(***************************************************************************)
(* Modules, go.mod files and packages, built step by step (run in          *)
(* simulation), for C22.                                                   *)
(***************************************************************************)
EXTENDS Resolve, Json, SequencesExt
Env == JsonDeserialize("env.json")
VARIABLES w, pkgs, tgts, conf, phase
vars == <<w, pkgs, tgts, conf, phase>>

Paths == {"ex.com", "ex.com/app", "ex.com/app2", "ex.com/app-x", "ex.com/ap", "ex.com/lib", "ex.com/lib/sub", "ex.com/library", "ex.com/Lib", "ex.com/Big/App", "ex.com/lib/v2", "gopkg.in/x.v1", "ex.com/app.v3/lib"}
Mains == {"", "ex.com/app", "ex.com/lib", "ex.com/Big/App", "app", "ex.com/lib/v2", "ex.com/app-x"}
Tails == {"", "/p", "/sub", "/sub/p", "/v2", "/ex.com/lib", "/P", "2/q", "-x"}
V2(p) == Len(p) > 3 /\ SubSeq(p, Len(p) - 2, Len(p)) = "/v2"
Versions(p) == IF V2(p) THEN {"v2.0.0", "v2.1.3-rc.1"} ELSE IF p = "gopkg.in/x.v1" THEN {"v1.0.0", "v1.2.3"}
               ELSE {"v1.0.0", "v1.2.3", "v0.0.0-20200101000000-abcdef123456", "v3.0.0+incompatible", "v1.0.0-RC1"}
Locals == {[t |-> "../ext1", d |-> "top/ext1"], [t |-> "./inner/ext2", d |-> "top/app/inner/ext2"], [t |-> "@/ext3/x.com", d |-> "ext3/x.com"], [t |-> "../../ext4", d |-> "ext4"], [t |-> "../app2", d |-> "top/app2"], [t |-> "..", d |-> "top"]}

Init ==
  /\ w = [mod |-> [n |-> "", d |-> "top/app"], gp |-> "gp", gr |-> "gr", vd |-> "vendor", reqs |-> <<>>, reps |-> <<>>, hidden |-> <<>>]
  /\ pkgs = <<>> /\ tgts = <<>> /\ phase = "mod"
  /\ conf \in [reqs : 0 .. 4, reps : 0 .. 3, pkgs : 1 .. 4, tgts : 1 .. 2, go : BOOLEAN, at : {"", "conf", "top/app", "top/app/sub"}, abs : BOOLEAN, pair : BOOLEAN]

Main ==
  /\ phase = "mod" /\ phase' = "reqs"
  /\ \E n \in Mains, gp \in {"gp", "go/govendor"} : w' = [w EXCEPT !.mod.n = n, !.gp = gp]
  /\ UNCHANGED <<pkgs, tgts, conf>>
Foreign(p) == w.mod.n = "" \/ ~Below(p, w.mod.n)
Req ==
  /\ phase = "reqs" /\ w.mod.n # "" /\ Len(w.reqs) < conf.reqs
  /\ \E p \in {x \in Paths : Foreign(x) /\ \A r \in Range(w.reqs) : r.p # x} : \E v \in Versions(p) : w' = [w EXCEPT !.reqs = Append(@, [p |-> p, v |-> v])]
  /\ UNCHANGED <<pkgs, tgts, conf, phase>>
Rep ==
  /\ phase = "reps" /\ w.mod.n # "" /\ Len(w.reps) < conf.reps
  /\ \E p \in {x \in Paths : Foreign(x)} : \E any \in BOOLEAN : \E v \in (IF any \/ Version(w, p) = "" THEN {""} ELSE Versions(p)) :
       /\ \A r \in Range(w.reps) : <<r.p, r.v>> # <<p, v>>
       \* directives for one path, with and without version
       /\ (conf.pair /\ Len(w.reps) = 1 /\ Version(w, w.reps[1].p) # "") => p = w.reps[1].p /\ (v = "") = (w.reps[1].v # "")
       /\ (conf.pair /\ Len(w.reps) = 0 /\ w.reqs # <<>>) => \E r \in Range(w.reqs) : p = r.p /\ v \in {"", r.v}
       /\ \/ \E l \in Locals : w' = [w EXCEPT !.reps = Append(@, [p |-> p, v |-> v, n |-> l.t, nv |-> "", d |-> l.d])]
          \/ \E n \in Paths : \E nv \in Versions(n) : w' = [w EXCEPT !.reps = Append(@, [p |-> p, v |-> v, n |-> n, nv |-> nv, d |-> ""])]
  /\ UNCHANGED <<pkgs, tgts, conf, phase>>
Target ==
  /\ phase = "tgts" /\ Len(tgts) < conf.tgts
  /\ \E root \in Paths \cup (IF w.mod.n = "" THEN {} ELSE {w.mod.n}), tail \in Tails :
       LET p == root \o tail
       IN /\ \A i \in 1 .. Len(tgts) : tgts[i] # p
          /\ IF w.mod.n # "" /\ Below(p, w.mod.n) THEN TRUE ELSE Matching(w, p) = {}
          /\ tgts' = Append(tgts, p)
  /\ UNCHANGED <<w, pkgs, conf, phase>>
Pkg ==
  /\ phase = "pkgs" /\ Len(pkgs) < conf.pkgs
  /\ \E root \in Paths \cup (IF w.mod.n = "" THEN {} ELSE {w.mod.n}) \cup {"time2", "net/x"}, tail \in Tails :
       LET p == root \o tail
       IN /\ \A i \in 1 .. Len(pkgs) : pkgs[i].p # p
          /\ \A i \in 1 .. Len(tgts) : tgts[i] # p
          /\ \E use \in {"direct", "field", "listed"} : \E t \in 1 .. Len(tgts) : pkgs' = Append(pkgs, [p |-> p, use |-> use, t |-> t])
  /\ UNCHANGED <<w, tgts, conf, phase>>
(* what does not exist: for packages of the workspace all but some directories; seldom, a package at all *)
Needed == Range(tgts) \cup {pkgs[i].p : i \in 1 .. Len(pkgs)}
Hide ==
  /\ phase = "hide" /\ phase' = "done"
  /\ LET space == {p \in Needed : Dirs(w, p) = Workspace(w, p)}
     IN \E keep \in {"gp", "vd", "all"} \cup (IF conf.go THEN {} ELSE {"gr"}) : \E gone \in {""} \cup Needed : \E really \in 1 .. 4 :
          LET lost == UNION {CASE p \in Range(tgts) -> Workspace(w, p) \ {w.gp \o "/src/" \o p}
                               [] keep = "all" -> {}
                               [] keep = "gp" -> Workspace(w, p) \ {w.gp \o "/src/" \o p}
                               [] keep = "gr" -> Workspace(w, p) \ {w.gr \o "/src/" \o p}
                               [] OTHER -> Workspace(w, p) \ {w.vd \o "/" \o p} : p \in space}
              none == IF gone = "" \/ really # 1 THEN {} ELSE Dirs(w, gone) \cup {w.vd \o "/" \o gone} \cup {ModuleDir(w, m) \o Rest(gone, m) : m \in Matching(w, gone)}
          IN w' = [w EXCEPT !.hidden = SetToSeq(lost \cup none)]
  /\ UNCHANGED <<pkgs, tgts, conf>>
NextPhase ==
  /\ CASE phase = "reqs" -> (w.mod.n = "" \/ Len(w.reqs) = conf.reqs) /\ phase' = "reps"
       [] phase = "reps" -> (w.mod.n = "" \/ Len(w.reps) = conf.reps) /\ phase' = "tgts"
       [] phase = "tgts" -> Len(tgts) = conf.tgts /\ phase' = "pkgs"
       [] phase = "pkgs" -> Len(pkgs) = conf.pkgs /\ phase' = "hide"
       [] OTHER -> FALSE
  /\ UNCHANGED <<w, pkgs, tgts, conf>>
Finish ==
  /\ phase = "done" /\ phase' = "end"
  (* not decided: packages missing in the module of the longest path, but not in others or the vendor directory *)
  /\ \A p \in Needed : Found(w, p) = {} => {w.vd \o "/" \o p} \cup {ModuleDir(w, m) \o Rest(p, m) : m \in Matching(w, p)} \subseteq Range(w.hidden)
  /\ PrintT("PROG " \o ToJson([w |-> w, pkgs |-> pkgs, tgts |-> tgts, conf |-> conf, dirs |-> [p \in Needed |-> Candidates(w, p) \ Range(w.hidden)]]))
  /\ UNCHANGED <<w, pkgs, tgts, conf>>
Next == Main \/ Req \/ Rep \/ Target \/ Pkg \/ Hide \/ NextPhase \/ Finish
=============================================================================
