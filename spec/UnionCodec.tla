----------------------------- MODULE UnionCodec -----------------------------
(***************************************************************************)
(* A union value put into a message (argument or result) and sent in JSON. *)
(* A union has members 1..n; a value has at most one of them set.  JSON    *)
(* values are canonical texts.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES set,    \* number of the set member, 0: none
          own,    \* the own JSON value of the set member, encoded alone
          omit,   \* the position is left out when the union is empty
          state   \* "new", "made", "sent"
vars == <<set, own, omit, state>>

Init == set = 0 /\ own = "" /\ omit = FALSE /\ state = "new"

Make(n, s, json, o) ==
  /\ state = "new" /\ s \in 0 .. n
  /\ set' = s /\ own' = json /\ omit' = o /\ state' = "made"

Sent(wire) ==
  /\ state = "made"
  /\ IF set = 0 THEN wire = "null" \/ (omit /\ wire = "absent") ELSE wire = own
  /\ state' = "sent"
  /\ UNCHANGED <<set, own, omit>>
=============================================================================
