------------------------------- MODULE MCTime -------------------------------
(* Model check of TimeCodec: whatever the parties do within the rules, an   *)
(* instant makes a JSON round trip with its millisecond and a msgpack round *)
(* trip unchanged.                                                          *)
EXTENDS TimeCodec, FiniteSets
VARIABLE start
Instants == {Nil, ZeroTime} \cup ({0, 1, 2} \X {0, 1} \X {0, 1})
AllWires == {Null, Absent, [k |-> "other", d |-> 0, m |-> 0]} \cup {Int(t) : t \in Instants \ {Nil}}
MCInit == Init /\ start = Nil
MCNext ==
  \/ \E t \in Instants, e \in {"json", "msgpack"}, p \in [ptr : BOOLEAN, omit : BOOLEAN] : Start(t, e, p) /\ start' = t
  \/ UNCHANGED start /\ (\E w \in AllWires : Send(w) \/ Reply(w))
  \/ UNCHANGED start /\ (\E t \in Instants : Recv(t) \/ Got(t))
MCSpec == MCInit /\ [][MCNext]_<<vars, start>>
RoundTrip ==
  at = "back" =>
    val \in IF enc = "msgpack" THEN Kept(start) ELSE {Floor(start)}
=============================================================================
