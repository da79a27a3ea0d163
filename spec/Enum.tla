-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Constants of named scalars, and the TypeScript enums they become.       *)
(* A package is [types: name -> basic kind ("string", "number", "boolean"),*)
(* groups: Seq([test: BOOLEAN, local: BOOLEAN,                             *)
(*   specs: Seq([type: name or "", foreign: BOOLEAN, names: Seq(string),   *)
(*               vals: Seq([j, v])])])]                                    *)
(* A specification without type and values repeats the one before it.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1 .. Len(s)}

RECURSIVE Origin(_, _)
Origin(specs, i) == IF specs[i].type = "" /\ specs[i].vals = <<>> /\ i > 1 THEN Origin(specs, i - 1) ELSE i

(* the constants of type t: those declared on the level of the package, in files that are part of it *)
ConstsOf(pkg, t) ==
  UNION {UNION {LET s == g.specs[i]  o == g.specs[Origin(g.specs, i)]
                IN IF o.type = t /\ ~o.foreign
                   THEN {[n |-> s.names[k], v |-> o.vals[k]] : k \in {x \in 1 .. Len(s.names) : s.names[x] # "_"}}
                   ELSE {} : i \in 1 .. Len(g.specs)} : g \in {x \in Range(pkg.groups) : ~x.test /\ ~x.local}}

Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Small   == "abcdefghijklmnopqrstuvwxyz"
At(s, i) == SubSeq(s, i, i)
IndexOf(s, c) == IF \E i \in 1 .. Len(s) : At(s, i) = c THEN CHOOSE i \in 1 .. Len(s) : At(s, i) = c ELSE 0
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))
IsName(s) == Len(s) > 0 /\ IndexOf(Letters, At(s, 1)) + IndexOf(Small, At(s, 1)) > 0
Strip(n, t) == IF Starts(n, t) /\ IsName(After(n, t)) THEN After(n, t) ELSE n
Upper(s) == IF IndexOf(Small, At(s, 1)) > 0 THEN At(Letters, IndexOf(Small, At(s, 1))) \o SubSeq(s, 2, Len(s)) ELSE s

(* the names a member may have: the name of the constant without the name of its type,
   unless nothing is left that can be a name; unexported constants may be capitalised *)
MemberNames(n, t) ==
  IF Strip(n, t) # n \/ Upper(n) = n THEN {Strip(n, t)}
  ELSE {n, Upper(n), Strip(Upper(n), t), Strip(Upper(n), Upper(t))}

(* names with underscores are rewritten in camel case: only their letters and digits are compared *)
RECURSIVE Norm(_)
Norm(s) == IF s = "" THEN ""
           ELSE LET c == At(s, 1)
                IN (IF c = "_" THEN "" ELSE IF IndexOf(Letters, c) > 0 THEN At(Small, IndexOf(Letters, c)) ELSE c) \o Norm(SubSeq(s, 2, Len(s)))
Snake(n) == IndexOf(n, "_") > 0
NormNames(n, t) == IF Snake(n) THEN {Norm(n)} \cup (IF Starts(Norm(n), Norm(t)) THEN {After(Norm(n), Norm(t))} ELSE {})
                   ELSE {Norm(x) : x \in MemberNames(n, t)}
MemberOf(c, m, t) == m.v = c.v /\ IF Snake(c.n) THEN Norm(m.n) \in NormNames(c.n, t) ELSE m.n \in MemberNames(c.n, t)
(* two constants that would share a name: all keep their own *)
MayShare(n, d, t) == IF Snake(n) \/ Snake(d) THEN NormNames(n, t) \cap NormNames(d, t) # {} ELSE MemberNames(n, t) \cap MemberNames(d, t) # {}
OwnNames(cs, ms, t) ==
  /\ \E c, d \in cs : c # d /\ MayShare(c.n, d.n, t)
  /\ Range(ms) = cs
EnumOf(pkg, t, ms) ==
  LET cs == ConstsOf(pkg, t)
  IN /\ Len(ms) = Cardinality(cs)
     /\ Cardinality({m.n : m \in Range(ms)}) = Len(ms)
     /\ \/ /\ \A m \in Range(ms) : \E c \in cs : MemberOf(c, m, t)
           /\ \A c \in cs : \E m \in Range(ms) : MemberOf(c, m, t)
        \/ OwnNames(cs, ms, t)

(* ds: the declarations of t in TypeScript *)
Declared(pkg, t, ds) ==
  /\ Len(ds) = 1
  /\ IF ConstsOf(pkg, t) = {} THEN ds[1].k = "alias" /\ ds[1].t.k = "kw" /\ ds[1].t.n = pkg.types[t]
     ELSE ds[1].k = "enum" /\ EnumOf(pkg, t, ds[1].members)
=============================================================================
