------------------------------- MODULE MCGoRpc -------------------------------
(* GoRpc on a small instance: two calls of two methods, two values.         *)
EXTENDS GoRpc
MCSvcs == [S |-> [pkg |-> "p", ms |-> [A |-> [nargs |-> 1, nrets |-> 1], B |-> [nargs |-> 0, nrets |-> 0]]]]
Vals == {"u", "v"}
Tup(n) == [1 .. n -> Vals]
Next ==
  \/ Setup(TRUE)
  \/ \E k \in {"k1", "k2", "k3"}, m \in {"A", "B"}, f \in Faults : \E a \in Tup(MCSvcs["S"].ms[m].nargs) : Call(k, "S", m, a, f)
  \/ \E m \in {"A", "B"} : \E a \in Tup(MCSvcs["S"].ms[m].nargs), r \in Tup(MCSvcs["S"].ms[m].nrets) : Exec("S", m, FALSE, FALSE, a, r)
  \/ \E m \in {"A", "B"} : Stat("p", "S", "S" \o m \o "Request", FALSE)
  \/ \E k \in DOMAIN calls : \E n \in {0, 1} : \E r \in Tup(n) : Return(k, r)
  \/ \E k \in DOMAIN calls : Fail(k, TRUE)
Spec == Init /\ [][Next]_gvars
=============================================================================
