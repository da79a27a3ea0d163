----------------------------- MODULE RpcSched -----------------------------
(* Enumerates concurrent scenarios: which calls run together and in which  *)
(* order they pass their gates.  A word names the call that passes its     *)
(* next gate; it has at most three (two calls) or four (three calls)       *)
(* segments, i.e. every schedule with few preemptions, at every position.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Family == JsonDeserialize("env.json").family
MsgpackType == "application/msgpack; charset=utf-8"
JsonType    == "application/json; charset=utf-8"

Base(s, m) == [kind |-> "call", svc |-> s, m |-> m, cli |-> "c1", enc |-> "msgpack", hdr |-> "none",
            via |-> "", fault |-> "none", script |-> <<>>, inst |-> TRUE, epv |-> "default", unenc |-> FALSE,
            errk |-> "nil", path |-> "exact", verb |-> "POST", ct |-> MsgpackType, body |-> "ok", pos |-> 0,
            prof |-> "tag"]
Kinds == {
  Base("Alpha", "Gated"),
  [Base("Alpha", "Gated") EXCEPT !.enc = "json", !.cli = "c2", !.hdr = "plain"],
  [Base("Alpha", "GetAllOf") EXCEPT !.hdr = "conf", !.cli = "c2"],
  [Base("Alpha", "TryAll") EXCEPT !.errk = "wrap"],
  [Base("Alpha", "Typed") EXCEPT !.errk = "fail", !.prof = "rand"],
  [Base("Alpha", "TryAll") EXCEPT !.errk = "coded", !.inst = FALSE],
  [Base("Alpha", "Obj") EXCEPT !.inst = FALSE, !.hdr = "conf", !.cli = "c5"],
  [Base("Alpha", "TryGet") EXCEPT !.errk = "coded", !.hdr = "plain"],
  [Base("Alpha", "Obj") EXCEPT !.enc = "json", !.prof = "rand"],
  Base("Beta", "SessGated"),
  [Base("Beta", "SessGated") EXCEPT !.script = <<[op |-> "header", n |-> 0, a |-> "X-Fx-One", b |-> "1"],
      [op |-> "status", n |-> 409, a |-> "", b |-> ""], [op |-> "write", n |-> 0, a |-> "taken", b |-> ""]>>],
  [Base("Alpha", "SessNone") EXCEPT !.inst = FALSE, !.enc = "json"],
  [Base("Alpha", "Nothing") EXCEPT !.hdr = "plain", !.enc = "json"],
  [Base("Alpha", "Get") EXCEPT !.kind = "raw", !.ct = JsonType, !.body = "garbage"],
  [Base("Alpha", "Gated") EXCEPT !.kind = "raw", !.ct = "text/plain"],
  [Base("Alpha", "GetAll") EXCEPT !.kind = "raw", !.path = "unknown"],
  [Base("Alpha", "Gated") EXCEPT !.fault = "status:503"],
  [Base("Alpha", "GetAllOf") EXCEPT !.fault = "trunc", !.enc = "json"],
  [Base("Alpha", "GetAllOf") EXCEPT !.fault = "early"],
  [Base("Alpha", "GetAll") EXCEPT !.via = "A", !.cli = "c3"],
  [Base("Alpha", "Obj") EXCEPT !.via = "B", !.cli = "c4n"]}

Rep(i, n) == [k \in 1 .. n |-> i]
Gates == 15
Words2 == {Rep(i, a) \o Rep(1 - i, b) \o Rep(i, 16) \o Rep(1 - i, 16) : i \in {0, 1}, a \in 0 .. Gates, b \in 1 .. Gates}
Words3 == {Rep(0, a) \o Rep(1, b) \o Rep(2, c) \o Rep(0, e) \o Rep(1, 16) \o Rep(2, 16) :
             a \in {1, 3, 4, 6, 8, 10}, b \in {1, 3, 5, 7, 9, 12}, c \in {2, 4, 6, 8, 11}, e \in {1, 2, 5, 16}}
Sched == {[n |-> 2, word |-> w] : w \in Words2} \cup {[n |-> 3, word |-> w] : w \in Words3}
Pairs == {[cases |-> <<a, b>>] : a \in Kinds, b \in Kinds}
Few == {k \in Kinds : k.m \in {"Gated", "SessGated", "TryAll"} /\ k.fault = "none"}
Trios == {[cases |-> <<a, b, c>>] : a \in Few, b \in Few, c \in Few}

Wanted == CASE Family = "sched" -> Sched [] Family = "pairs" -> Pairs [] Family = "trios" -> Trios
ASSUME JsonSerialize("cases.json", SetToSeq(Wanted))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
