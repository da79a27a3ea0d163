----------------------------- MODULE ErrCases -----------------------------
(* Enumerates error chains: every leaf below every sequence of wrappers, in *)
(* every kind of result.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Env == JsonDeserialize("env.json")
Leaves == {"plain", "pkgnew", "fail", "rich", "valdata", "scalar", "valptr", "scalarptr", "num", "otherfail", "otherscalar",
           "eof", "canceled", "deadline", "patherr", "numerr", "jsonerr", "urlerr", "fnerr", "chanerr"}
Kinds == {"colon", "suffix", "middle", "bare", "glued", "pkgmsg", "pkgwrap", "withstack", "custptr", "custval", "hop"}
Results == {"One", "Mid", "Two1", "Two2"}

Case(r, leaf, ws) == [res |-> r, leaf |-> leaf, wraps |-> ws]
SeqsOf(n) == IF n = 0 THEN {<<>>} ELSE [1 .. n -> Kinds]

Family == Env.family
Wanted ==
  CASE Family = "short" -> {Case(r, f, w) : r \in Results, f \in Leaves, w \in SeqsOf(0) \cup SeqsOf(1)}
                           \cup {Case(r, "nil", <<>>) : r \in Results}
                           \cup {Case(r, "typednil", <<>>) : r \in Results}
                           \cup {Case("PtrT", f, <<>>) : f \in {"typednil", "fail"}}
                           \cup {Case("PtrMid", f, <<>>) : f \in {"typednil", "rich"}}
                           \cup {Case("ValT", f, <<>>) : f \in {"valdata"}}
                           \cup {Case("ScalT", f, <<>>) : f \in {"scalar"}}
                           \cup {Case("NumT", f, <<>>) : f \in {"num"}}
    [] Family = "two"   -> {Case("One", f, w) : f \in Leaves, w \in SeqsOf(2)}
    [] Family = "three" -> {Case("Mid", f, w) : f \in {"plain", "fail", "rich", "valdata", "valptr", "scalar", "otherfail"}, w \in SeqsOf(3)}
    [] Family = "deep"  -> {Case(r, f, [i \in 1 .. n |-> k]) : r \in {"One", "Mid"}, f \in {"plain", "fail", "eof"},
                                n \in {12, 30}, k \in Kinds \ {"custptr", "custval", "hop", "middle"}}
                           \cup {Case("Two2", f, [i \in 1 .. 20 |-> IF i % 3 = 0 THEN k ELSE j]) : f \in {"plain", "rich"},
                                k \in Kinds \ {"custval", "hop"}, j \in {"colon", "pkgmsg", "hop"}}
    [] Family = "four"  -> {Case("Two1", f, w) : f \in {"fail", "scalar"}, w \in SeqsOf(4)}

ASSUME JsonSerialize("cases.json", SetToSeq(Wanted))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
