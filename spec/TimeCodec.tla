----------------------------- MODULE TimeCodec -----------------------------
(***************************************************************************)
(* A time on its way from a Go caller through a service and back.          *)
(*                                                                         *)
(* An instant is <<d, m, n>>: days since 0001-01-01, milliseconds of the   *)
(* day, nanoseconds of the millisecond (TLC's integers are too small for   *)
(* one number); "nil" is <<>>.  What is on the wire is a record:           *)
(*   [k |-> "int", d, m]   a JSON integer: the millisecond                 *)
(*   [k |-> "null"], [k |-> "absent"], [k |-> "other"]                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES at,    \* where the time is: "caller", "request", "service", "reply", "back"
          val,   \* the instant the party last seen holding it has, or what is on the wire
          enc,   \* encoding
          pos    \* the position: [ptr: a pointer, omit: left out when zero or nil]
vars == <<at, val, enc, pos>>

Nil == <<>>
Int(t) == [k |-> "int", d |-> t[1], m |-> t[2]]
Null == [k |-> "null", d |-> 0, m |-> 0]
Absent == [k |-> "absent", d |-> 0, m |-> 0]
ZeroTime == <<0, 0, 0>>
Zero == IF pos.ptr THEN Nil ELSE ZeroTime   \* of the position

Init == at = "new" /\ val = Nil /\ enc = "json" /\ pos = [ptr |-> FALSE, omit |-> FALSE]

\* what may be on a JSON wire for an instant
Wires(t) ==
  {IF t = Nil THEN Null ELSE Int(t)} \cup (IF pos.omit /\ t = Zero THEN {Absent} ELSE {})
\* what is read back from the wire; null and absent give the zero value of the position
Reads(w) ==
  CASE w.k = "int"   -> {<<w.d, w.m, 0>>}
    [] w.k = "other" -> {}
    [] OTHER         -> {Zero}

\* what a msgpack wire makes of an instant: the same.  (The codec's msgpack has no zero time: it is nil
\* there, which makes a difference for a pointer to it.)
Kept(t) == {t} \cup (IF t = ZeroTime THEN {Zero} ELSE {})

Start(t, e, p) == at = "new" /\ at' = "caller" /\ val' = t /\ enc' = e /\ pos' = p /\ (t = Nil => p.ptr)
\* a raw request holding a JSON integer or null
StartRaw(w, p) == at = "new" /\ at' = "request" /\ val' = w /\ enc' = "json" /\ pos' = p

Encode(from, to, w) ==
  /\ at = from /\ at' = to
  /\ enc = "json" => w \in Wires(val)
  /\ val' = IF enc = "json" THEN w ELSE val
  /\ UNCHANGED <<enc, pos>>
Decode(from, to, t) ==
  /\ at = from /\ at' = to
  /\ IF enc = "json" THEN t \in Reads(val) ELSE t \in Kept(val)
  /\ val' = t
  /\ UNCHANGED <<enc, pos>>

Send(w)  == Encode("caller", "request", w)
Recv(t)  == Decode("request", "service", t)
Reply(w) == Encode("service", "reply", w)
Got(t)   == Decode("reply", "back", t)

(* What the rules guarantee, checked by MCTime on all small instants *)
Floor(t) == IF t = Nil THEN Nil ELSE <<t[1], t[2], 0>>
=============================================================================
