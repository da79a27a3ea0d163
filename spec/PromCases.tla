------------------------------ MODULE PromCases ------------------------------
(* Requests to instrumented services, and synthetic GoRPC statistics.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
Env == JsonDeserialize("env.json")
Classes == {"run", "badargs", "nofunc", "options", "get"}
Req(s, m, enc, class, prof, taken) == [kind |-> "req", svc |-> s, m |-> m, enc |-> enc, class |-> class, prof |-> prof, taken |-> taken]
Reqs == UNION {{Req(s, m, e, c, p, t) : m \in DOMAIN Env.svcs[s].ms, e \in {"json", "msgpack"}, c \in Classes, p \in {"rand", "big"}, t \in BOOLEAN} : s \in DOMAIN Env.svcs}
Ok(c) == /\ c.taken => (Env.svcs[c.svc].ms[c.m].sess /\ c.class = "run")
         /\ c.class = "badargs" => Env.svcs[c.svc].ms[c.m].nargs > 0
         /\ c.prof = "big" => c.class = "run"
Durations == {0, 1, 999, 1000, 500000, 1000000, 3600000}   \* microseconds
Go == {[kind |-> "gorpc", pkg |-> p, svc |-> s, func |-> f, us |-> u, inst |-> i] :
         p \in {"a", "b/c"}, s \in {"S", "T"}, f \in {"SxRequest", "TyRequest"}, u \in Durations, i \in {1, 2, 3}}
Values == {[un |-> u, ex |-> e, ma |-> m, req |-> a, resp |-> b] : u \in {0, 7, 2500000}, e \in {1, 1300}, m \in {0, 11}, a \in {0, 13}, b \in {0, 1048577}}
Own == {[kind |-> "own", pkg |-> "own/p", svc |-> s, func |-> f, v |-> v, clear |-> c] :
         s \in {"S", "ServiceX"}, f \in {"F", "f"}, v \in Values, c \in BOOLEAN}
ASSUME JsonSerialize("cases.json", SetToSeq({c \in Reqs : Ok(c)} \cup Go \cup Own))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
