----------------------------- MODULE TimeCases -----------------------------
(* Every static position of a time (method, argument, path into the value) *)
(* and boundary instants.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
Env == JsonDeserialize("env.json")

\* positions inside a Stamp; the flag: a pointer (may be nil)
Leaves == {<<<<"f:T">>, FALSE>>, <<<<"f:P">>, TRUE>>, <<<<"f:O">>, FALSE>>, <<<<"f:OP">>, TRUE>>,
           <<<<"f:S", "i:0">>, FALSE>>, <<<<"f:S", "i:3">>, FALSE>>, <<<<"f:SP", "i:1">>, TRUE>>,
           <<<<"f:M", "k:x">>, FALSE>>, <<<<"f:MP", "k:">>, TRUE>>, <<<<"f:SS", "i:1", "i:0">>, FALSE>>,
           <<<<"f:MS", "k:a b", "i:0">>, FALSE>>, <<<<"f:SM", "i:0", "k:k">>, TRUE>>,
           <<<<"f:NL", "i:0">>, FALSE>>, <<<<"f:NM", "k:n">>, FALSE>>,
           <<<<"f:A", "f:X">>, FALSE>>, <<<<"f:A", "f:Y">>, TRUE>>, <<<<"f:Raw">>, FALSE>>}
Omit(p) == \E i \in DOMAIN p : p[i] \in {"f:O", "f:OP"}
Under(prefix, S) == {<<prefix \o s[1], s[2]>> : s \in S}
InBox == {<<<<"f:Begin">>, FALSE>>, <<<<"f:End">>, TRUE>>}
         \cup UNION {Under(p, Leaves) : p \in {<<"f:In">>, <<"f:PIn">>, <<"f:L", "i:0">>, <<"f:LP", "i:1">>, <<"f:ML", "k:q">>}}
Boxes == InBox \cup Under(<<"f:N">>, InBox)

Pos(m, a, S) == {[m |-> m, a |-> a, path |-> s[1], ptr |-> s[2], omit |-> Omit(s[1])] : s \in S}
Positions ==
  Pos("T", 0, {<<<<>>, FALSE>>}) \cup Pos("P", 0, {<<<<>>, TRUE>>})
  \cup Pos("L", 0, {<<<<"i:0">>, FALSE>>, <<<<"i:2">>, FALSE>>}) \cup Pos("LP", 0, {<<<<"i:1">>, TRUE>>})
  \cup Pos("M", 0, {<<<<"k:x">>, FALSE>>}) \cup Pos("MP", 0, {<<<<"k:y">>, TRUE>>})
  \cup Pos("Multi", 0, {<<<<>>, FALSE>>}) \cup Pos("Multi", 2, {<<<<>>, TRUE>>}) \cup Pos("Multi", 3, {<<<<"i:0">>, FALSE>>})
  \cup Pos("Sess", 0, {<<<<>>, FALSE>>}) \cup Pos("Sess", 1, {<<<<>>, TRUE>>})
  \cup Pos("NL", 0, {<<<<"i:1">>, FALSE>>}) \cup Pos("NM", 0, {<<<<"k:n">>, FALSE>>})
  \cup Pos("St", 0, Leaves) \cup Pos("PSt", 0, Leaves)
  \cup Pos("LSt", 0, Under(<<"i:1">>, Leaves)) \cup Pos("MSt", 0, Under(<<"k:z">>, Leaves))
  \cup Pos("Box", 0, Boxes)

\* days: year 1, 1582, before/after what int64 nanoseconds can hold, 1969/1970, 2001, 2038, 2262, 9999
Days == {0, 1, 577735, 612411, 612412, 719161, 719162, 719163, 730484, 744013, 825912, 825913, 825914, 3652057, 3652058}
Mss  == {0, 1, 999, 1000, 43200000, 86399999}
Nss  == {0, 1, 499999, 500000, 999999}
Zones == {"utc", "local", "east", "west"}
Inst(d, m, n) == <<d, m, n>>
All == {Inst(d, m, n) : d \in Days, m \in Mss, n \in Nss}
Few == {Inst(0, 0, 0), Inst(0, 0, 1), Inst(612411, 1, 0), Inst(719161, 86399999, 999999), Inst(719162, 0, 0),
        Inst(719163, 43200000, 500000), Inst(825914, 999, 1), Inst(3652058, 86399999, 999999)}

Case(p, t, z, e, raw) == [m |-> p.m, a |-> p.a, path |-> p.path, ptr |-> p.ptr, omit |-> p.omit,
                          t |-> t, zone |-> z, enc |-> e, raw |-> raw]
Top == {p \in Positions : p.m \in {"T", "P", "L", "Multi", "Sess"} \/ (p.m = "St" /\ p.path \in {<<"f:T">>, <<"f:P">>, <<"f:M", "k:x">>})}
Nils == {Case(p, <<>>, "utc", e, r) : p \in {q \in Positions : q.ptr}, e \in {"json", "msgpack"}, r \in BOOLEAN}
Family == Env.family
Wanted ==
  CASE Family = "positions" -> {Case(p, t, "utc", "json", FALSE) : p \in Positions, t \in Few} \cup
                               {Case(p, t, "east", "msgpack", FALSE) : p \in Positions, t \in {Inst(0, 0, 0), Inst(719161, 86399999, 999999)}} \cup
                               {Case(p, t, "utc", "json", TRUE) : p \in Positions, t \in {Inst(0, 0, 0), Inst(719161, 1, 0), Inst(719162, 0, 0), Inst(3652058, 86399999, 0)}} \cup
                               {c \in Nils : ~(c.raw /\ c.enc = "msgpack")}
    [] Family = "instants"  -> {Case(p, t, z, e, FALSE) : p \in Top, t \in All, z \in Zones, e \in {"json", "msgpack"}} \cup
                               {Case(p, <<t[1], t[2], 0>>, "utc", "json", TRUE) : p \in Top, t \in All}
ASSUME JsonSerialize("cases.json", SetToSeq(Wanted))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
