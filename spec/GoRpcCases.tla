----------------------------- MODULE GoRpcCases -----------------------------
(* Scenarios for GoRPC: every method with every kind of values, result      *)
(* error, transport fault; groups of concurrent calls with the orders in    *)
(* which their executions finish.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
Env == JsonDeserialize("env.json")
Family == Env.family
Profs == {"plain", "rand", "zero", "big"}
ErrKs == {"nil", "coded", "fail", "codedval"}
Ms(s) == DOMAIN Env.svcs[s].ms
Case(s, m, p, e, f, t, st) == [svc |-> s, m |-> m, prof |-> p, errk |-> e, fault |-> f, tls |-> t, stats |-> st]
Single == UNION {{Case(s, m, p, e, "none", t, st) : m \in Ms(s), p \in Profs,
             e \in ErrKs, t \in BOOLEAN, st \in BOOLEAN} : s \in DOMAIN Env.svcs}
\* errors only where a result can be one
SingleOK == {c \in Single : c.errk = "nil" \/ (Env.svcs[c.svc].ms[c.m].errs # <<>> /\ c.prof # "zero")}
Faulty == {c \in UNION {{Case(s, m, "plain", "nil", f, FALSE, st) : m \in Ms(s), f \in {"dead", "mid"}, st \in BOOLEAN} : s \in DOMAIN Env.svcs} : TRUE}
Unenc == {Case("Alpha", "Obj", "plain", "nil", f, FALSE, TRUE) : f \in {"unencArg", "unencRet"}}
Perms(n) == {p \in [1 .. n -> 1 .. n] : Cardinality({p[i] : i \in 1 .. n}) = n}
Orders == UNION {Perms(n) : n \in 2 .. 5}
ASSUME JsonSerialize("cases.json", SetToSeq(CASE Family = "single" -> SingleOK [] Family = "faulty" -> Faulty \cup Unenc
                                              [] Family = "orders" -> {[order |-> o] : o \in Orders}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
