----------------------------- MODULE TypeCases -----------------------------
(***************************************************************************)
(* The ways a Go type can be built up and exposed, enumerated for C18: a   *)
(* leaf, where the leaf is declared relative to its use, the constructors  *)
(* around it (outermost first) and the place of the type.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Env == JsonDeserialize("env.json")
Prims == {"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
          "float32", "float64", "byte", "rune"}
Named == {"struct", "enumS", "enumN", "str", "num", "bool_", "slice", "sliceS", "map", "blob", "ifaceT", "union"}
Homes == {"file", "pkg", "other"}        \* same file, another file of the package, another package
Leaves == [l : Prims \cup {"iface", "time"}, home : {"-"}] \cup [l : Named, home : Homes]
Cons == {"ptr", "slice", "map", "imap", "emap", "anon"}
NilNamed == {"slice", "sliceS", "map", "blob"}

(* pointers to slices, maps, interfaces and pointers are not supported *)
Valid(cs, leaf) ==
  \A i \in 1 .. Len(cs) : cs[i] = "ptr" =>
     IF i = Len(cs) THEN leaf.l \notin NilNamed \cup {"iface", "ifaceT"} ELSE cs[i + 1] = "anon"
Depth == IF Env.family = "deep" THEN 3 ELSE 2
Wraps == UNION {[1 .. n -> Cons] : n \in 0 .. Depth}
Flags == {"plain", "tag", "omit", "tagomit", "odd", "oddomit"}
Places == [p : {"field"}, flag : Flags] \cup [p : {"arg", "ret", "nslice", "nmap"}, flag : {"-"}]

Types == {[leaf |-> x[1], cons |-> x[2]] : x \in {y \in Leaves \X Wraps : Valid(y[2], y[1])}}
(* a tuple as a sequence *)
Seq0(f) == IF DOMAIN f = {} THEN <<>> ELSE [i \in 1 .. Cardinality(DOMAIN f) |-> f[i]]
Out == {[l |-> t.leaf.l, home |-> t.leaf.home, cons |-> t.cons] : t \in Types}
VARIABLE x
Init == x = JsonSerialize("cases.json", [types |-> Out, places |-> Places])
Next == FALSE /\ x' = x
=============================================================================
