----------------------------- MODULE UnionCases -----------------------------
(* Every way a union can be reached from an exposed service: sequences of   *)
(* edges from the argument or result type down to the union.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
Env == JsonDeserialize("env.json")

Naming == {"field", "ofield", "nslice", "nmap", "umember", "inline"}  \* edges that declare a type
Edges  == Naming \cup {"ptr", "slice", "map", "anon"}
Structs == {"field", "ofield", "inline"}                              \* edges that declare a struct
Unions == {"s2", "s5", "s12", "v2", "p2", "nested", "foreign", "one"}

\* Go (and the generator) allow: a pointer to a struct or union, embedding of a struct
OK(p) == /\ \A i \in DOMAIN p : p[i] = "ptr" => (i = Len(p) \/ p[i + 1] \in Structs \cup {"umember"})
         /\ \A i \in DOMAIN p : p[i] = "inline" => (i < Len(p) /\ p[i + 1] \in Structs)
         \* an anonymous struct is a field's type, not one of an argument or result
         /\ \A i \in DOMAIN p : p[i] = "anon" => (i > 1 /\ p[i - 1] \in {"field", "ofield"})
Seqs(n) == {p \in UNION {[1 .. k -> Edges] : k \in 0 .. n} : OK(p)}
NamedIn(p) == Cardinality({i \in DOMAIN p : p[i] \in Naming})

\* home: that many of the named types (from the outside) are in the service's package, the others elsewhere
Case(p, u, h, dir, svc) == [path |-> p, union |-> u, home |-> h, dir |-> dir, svc |-> svc]
Family == Env.family
N == IF Family = "deep" THEN 3 ELSE 2
Wanted == {Case(p, u, h, dir, s) : p \in Seqs(N), u \in Unions, h \in 0 .. 3, dir \in {"arg", "ret"}, s \in {"One", "Two", "Three"}}
\* unions registered by hand, n of them in one call
Hands == {[hand |-> [call |-> c, n |-> n, k |-> k, wrap |-> w], set |-> s] :
            c \in {"register", "must"}, n \in 1 .. 3, k \in 1 .. 3, w \in {"", "slice", "map", "ptr", "any"}, s \in 0 .. 4}
Legal(c) == c.home <= NamedIn(c.path) + 1
ASSUME JsonSerialize("cases.json", 
  IF Family = "hand" THEN SetToSeq({x \in Hands : x.hand.k <= x.hand.n}) ELSE SetToSeq({c \in Wanted : Legal(c)}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
