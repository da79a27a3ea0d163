------------------------------ MODULE BuildRun ------------------------------
(***************************************************************************)
(* What runs of the generator do to a directory tree (C16, C21).           *)
(*                                                                         *)
(* A configuration has targets (a sequence of [n, dir, svcs, ts, go, skip, *)
(* out], svcs/ts/go: sets of services, out: path or "") and maps           *)
(* (a sequence of [pkg, out, listed: set of packages of listed types]).    *)
(* The tree is a function path -> [h: content, m: modification].           *)
(* Uses[src][svc]: the packages of the types a service needs in sources    *)
(* src, itself included.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RangeOf(s) == {s[i] : i \in DOMAIN s}

AllGo == {"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"}
GoFiles(t) == (IF t.ts = {} THEN {} ELSE {"gotsrpc_gen.go"} \cup (IF t.skip THEN {} ELSE {"gotsrpcclient_gen.go"}))
              \cup (IF t.go = {} THEN {} ELSE {"gorpc_gen.go", "gorpcclient_gen.go"})
In(dir, f) == dir \o "/" \o f

Outs(cfg) == {t \in RangeOf(cfg.targets) : t.out # ""}
(* packages whose types are needed *)
NeededPkgs(uses, cfg) ==
  IF Outs(cfg) = {} THEN {}
  ELSE UNION ({UNION {uses[s] : s \in t.svcs} : t \in Outs(cfg)} \cup {m.listed : m \in RangeOf(cfg.maps)})
MappedPkgs(cfg) == {m.pkg : m \in RangeOf(cfg.maps)}
Fails(uses, cfg) == ~(NeededPkgs(uses, cfg) \subseteq MappedPkgs(cfg))

(* the file a configured name stands for: "~" is the home directory (here a directory of the tree) *)
FileOf(o) == CASE o = "~/gen/deep/a.ts" -> "home/gen/deep/a.ts" [] o = "~/b.ts" -> "home/b.ts" [] o = "~/types/d1.ts" -> "home/types/d1.ts"
               [] o = "./ts//y/./c.ts" -> "ts/y/c.ts" [] OTHER -> o

(* the files a run writes, and what each of them may depend on *)
GoOwned(cfg)  == UNION {{[path |-> In(t.dir, f), key |-> ToString(<<f, [t EXCEPT !.n = ""], IF t.out = "" THEN <<>> ELSE cfg.maps>>)] : f \in GoFiles(t)} : t \in RangeOf(cfg.targets)}
TsOwned(cfg)  == {[path |-> FileOf(t.out), key |-> ToString(<<"ts", [t EXCEPT !.n = ""], cfg.maps>>)] : t \in Outs(cfg)}
MapOwned(uses, cfg) == {[path |-> FileOf(m.out), key |-> ToString(<<"map", m.pkg, {[t EXCEPT !.n = ""] : t \in RangeOf(cfg.targets)}, cfg.maps>>)]
                          : m \in {x \in RangeOf(cfg.maps) : x.pkg \in NeededPkgs(uses, cfg)}}
Owned(uses, cfg) == GoOwned(cfg) \cup TsOwned(cfg) \cup MapOwned(uses, cfg)
Paths(os) == {o.path : o \in os}
Typescript(uses, cfg) == Paths(TsOwned(cfg) \cup MapOwned(uses, cfg))
(* generated Go files of earlier runs that must not stay *)
Stale(cfg) == (UNION {{In(t.dir, f) : f \in AllGo} : t \in RangeOf(cfg.targets)}) \ Paths(GoOwned(cfg))

(***************************************************************************)
(* one run: before, after: the tree; ref: what the files of this           *)
(* configuration and these sources contain (path -> content)               *)
(***************************************************************************)
Same(before, after, p) == p \in DOMAIN before /\ p \in DOMAIN after /\ before[p] = after[p]
OthersSame(uses, cfg, before, after) ==
  LET own == Paths(Owned(uses, cfg)) \cup Stale(cfg)
  IN \A p \in DOMAIN before \cup DOMAIN after : p \notin own => Same(before, after, p)
Files(uses, cfg, after) ==
  /\ \A p \in Paths(Owned(uses, cfg)) : p \in DOMAIN after
  /\ \A p \in Stale(cfg) : p \notin DOMAIN after
Content(uses, cfg, after, ref) ==
  \A p \in Paths(Owned(uses, cfg)) : (p \in DOMAIN after /\ p \in DOMAIN ref) => after[p].h = ref[p]
Untouched(uses, cfg, before, after) ==
  \A p \in Typescript(uses, cfg) :
     (p \in DOMAIN before /\ p \in DOMAIN after) => (before[p].h = after[p].h => before[p].m = after[p].m)
=============================================================================
