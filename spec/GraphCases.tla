----------------------------- MODULE GraphCases -----------------------------
(***************************************************************************)
(* Programs for C17 built step by step (run in simulation): named types    *)
(* over packages, references between them, services that use them, types   *)
(* listed in the configuration, and at most one fault.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Env == JsonDeserialize("env.json")
VARIABLES types, edges, roots, listed, conf, phase
vars == <<types, edges, roots, listed, conf, phase>>

Pkgs == <<"s1", "s2", "d1", "d2", "d3">>
Rank(p) == CASE p \in {"s1", "s2"} -> 0 [] p = "d1" -> 1 [] p = "d2" -> 2 [] OTHER -> 3
CanUse(p, q) == p = q \/ Rank(p) < Rank(q)
Kinds == {"struct", "slice", "map", "str", "num", "enum", "iface", "union", "cunion"}
StructPaths == {"dir", "ptr", "slice", "map", "key", "anon", "anonp", "inl", "pinl", "emb", "slsl", "mapsl", "slptr", "anonkey", "anoninl", "skey", "mkey", "mapanon", "anonsl", "deep"}
ElemPaths == {"dir", "slice", "map", "ptr", "key", "skey", "mkey", "mapanon", "deep"}
RootPaths == {"dir", "ptr", "slice", "map", "key", "slsl", "mapsl", "slptr", "skey", "mkey", "deep"}
KeyPaths == {"key", "anonkey", "skey", "mkey"}
PtrPaths == {"ptr", "slptr", "anonp", "deep"}
Faults == {"none", "unmapped", "nostruct", "noscalar", "dangling", "nopackage", "blocked"}

(* may a reference over path from type i reach type j? *)
ByValue == {"dir", "anon", "inl", "pinl", "emb", "anoninl"}
Fits(path, i, j) ==
  LET a == types[i]  b == types[j]
  IN /\ CanUse(a.pkg, b.pkg)
     /\ path \in KeyPaths => b.kind \in {"str", "enum"}
     /\ path \in {"inl", "pinl", "emb", "mem", "anoninl"} => b.kind = "struct" /\ i < j
     /\ path = "cmem" => b.kind = "enum"
     /\ path \in PtrPaths => b.kind \notin {"slice", "map", "iface"}
     /\ (a.kind = "struct" /\ path \in ByValue) => (b.kind \in {"struct", "union"} => i < j)
     /\ (a.kind \in {"slice", "map"} /\ path \in ByValue) => (b.kind \in {"slice", "map"} => i < j)

(* one long chain of types *)
Chain == Env.faults = "chain"
InChain(k, p) == IF types = <<>> THEN k = "struct" /\ p \in {1, 2}
                 ELSE LET l == types[Len(types)].pkg
                      IN /\ IF Len(types) % 9 = 0 THEN CanUse(l, Pkgs[p]) ELSE l = Pkgs[p]
                         /\ Len(types) < conf.n - 1 => k \in {"struct", "slice", "map"} /\ (k # "struct" => types[Len(types)].kind = "struct")

(* every kind of reference, the only one to its type *)
Pair == Env.faults = "pair"
InPair(k, p, f) == /\ f = "a"
                   /\ IF types = <<>> THEN p \in {1, 3} /\ (conf.n = 2 => k \in {"struct", "slice", "map", "union", "cunion"})
                      ELSE Pkgs[p] \in {types[1].pkg, "d2"} /\ CanUse(types[1].pkg, Pkgs[p])

Init ==
  /\ types = <<>> /\ edges = <<>> /\ roots = <<>> /\ listed = {}
  /\ phase = "types"
  /\ conf \in IF Pair THEN {[n |-> k, e |-> k - 1, r |-> 1, outs |-> <<TRUE, TRUE>>, fault |-> "none", at |-> 0] : k \in {1, 2}} ELSE
              [n : 1 .. Env.n, e : 0 .. Env.e, r : 0 .. 3, outs : {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>},
               fault : CASE Env.faults = "some" -> Faults [] Env.faults = "unmapped" -> {"unmapped"} [] OTHER -> {"none"}, at : 0 .. 3]
  /\ Chain => conf.n = Env.n /\ conf.e = Env.n - 1 /\ conf.r = 1
AddType ==
  /\ phase = "types" /\ Len(types) < conf.n
  /\ \E k \in Kinds, p \in 1 .. Len(Pkgs), f \in {"a", "b", "c_gen"} :
       (Chain => InChain(k, p)) /\ (Pair => InPair(k, p, f)) /\ types' = Append(types, [kind |-> k, pkg |-> Pkgs[p], f |-> f])
  /\ UNCHANGED <<edges, roots, listed, conf, phase>>
AddEdge ==
  /\ phase = "edges" /\ Len(edges) < conf.e
  /\ \E i \in (IF Chain THEN {Len(edges) + 1} ELSE 1 .. Len(types)) : \E j \in (IF Chain THEN {i + 1} ELSE 1 .. Len(types)) :
       \E path \in (CASE types[i].kind = "struct" -> StructPaths
                     [] types[i].kind \in {"slice", "map"} -> ElemPaths
                     [] types[i].kind = "union" -> {"mem"}
                     [] types[i].kind = "cunion" -> {"cmem"} [] OTHER -> {}) :
         /\ Fits(path, i, j)
         /\ Pair => i = 1 /\ j = 2
         /\ types[i].kind \in {"slice", "map"} => \A x \in 1 .. Len(edges) : edges[x].i # i
         /\ edges' = Append(edges, [i |-> i, j |-> j, path |-> path])
  /\ UNCHANGED <<types, roots, listed, conf, phase>>
AddRoot ==
  /\ phase = "roots" /\ Len(roots) < conf.r
  /\ \E s \in {"s1", "s2"}, j \in (IF Chain THEN {1} ELSE 1 .. Len(types)), path \in RootPaths, pos \in {"arg", "ret", "ret2"} :
       /\ CanUse(s, types[j].pkg)
       /\ Pair => s = "s1" /\ j = 1 /\ pos # "ret2" /\ (conf.n = 2 => path = "dir" /\ pos = "ret")
       /\ path \in KeyPaths => types[j].kind \in {"str", "enum"}
       /\ path \in PtrPaths => types[j].kind \notin {"slice", "map", "iface"}
       /\ roots' = Append(roots, [s |-> s, j |-> j, path |-> path, pos |-> pos])
  /\ UNCHANGED <<types, edges, listed, conf, phase>>
List ==
  /\ phase = "list" /\ ~Pair
  /\ \E j \in 1 .. Len(types) : listed' = {j}
  /\ UNCHANGED <<types, edges, roots, conf, phase>>
NextPhase ==
  /\ CASE phase = "types" -> Len(types) = conf.n /\ phase' = "edges"
       [] phase = "edges" -> phase' = "roots" /\ (Len(edges) = conf.e \/ ~ENABLED AddEdge)
       [] phase = "roots" -> phase' = "list" /\ (Len(roots) = conf.r \/ ~ENABLED AddRoot)
       [] phase = "list"  -> phase' = "done"
       [] OTHER -> FALSE
  /\ UNCHANGED <<types, edges, roots, listed, conf>>
Finish ==
  /\ phase = "done" /\ phase' = "end"
  /\ PrintT("PROG " \o ToJson([types |-> types, edges |-> edges, roots |-> roots, listed |-> listed, conf |-> conf]))
  /\ UNCHANGED <<types, edges, roots, listed, conf>>
Next == AddType \/ AddEdge \/ AddRoot \/ List \/ NextPhase \/ Finish
=============================================================================
