--------------------------------- MODULE Prom ---------------------------------
(***************************************************************************)
(* Services instrumented with prometheus: what the calls since the last    *)
(* look at the registry must have added to it.  A series is named by       *)
(* <<metric, package, service, func, type>>; what is known of its growth   *)
(* is a number of observations and bounds of their sum (bytes or           *)
(* microseconds; durations are only known up to bounds measured around and *)
(* inside of the call).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Svcs

VARIABLES added   \* [series -> [n, lo, hi]]
pvars == <<added>>

Nothing == [s \in {} |-> 0]
Init == added = Nothing

Obs(s, lo, hi) == s :> [n |-> 1, lo |-> lo, hi |-> hi]
Plus(f, g) ==
  [s \in DOMAIN f \cup DOMAIN g |->
     IF s \notin DOMAIN f THEN g[s] ELSE IF s \notin DOMAIN g THEN f[s]
     ELSE [n |-> f[s].n + g[s].n, lo |-> f[s].lo + g[s].lo, hi |-> f[s].hi + g[s].hi]]

Time == "gotsrpc_service_time_nanoseconds"
Size == "gotsrpc_service_size_bytes"
GoRpcTime == "gorpc_service_time_seconds"

\* the method ran, or its arguments could not be loaded: both are reported
Reported(class) == class \in {"run", "taken", "badargs"}

Observations(s, m, class, req, resp, inner, outer) ==
  LET L(metric, type) == <<metric, Svcs[s].pkg, s, m, type>>
      nargs == Svcs[s].ms[m].nargs
      reqlo == IF class = "badargs" \/ nargs = 0 THEN 0 ELSE req   \* a body nobody reads need not be measured
      resplo == IF class = "run" THEN resp ELSE 0
      execlo == IF class = "badargs" THEN 0 ELSE inner
  IN Plus(Obs(L(Size, "request"), reqlo, req),
     Plus(Obs(L(Size, "response"), resplo, resp),
     Plus(Obs(L(Time, "unmarshalling"), 0, outer),
     Plus(Obs(L(Time, "execution"), execlo, outer),
          Obs(L(Time, "marshalling"), 0, outer)))))

\* a request to an instrumented service; same: the response is the one of the service without instrumentation
Request(s, m, class, req, resp, inner, outer, same) ==
  /\ same
  /\ added' = IF Reported(class) THEN Plus(added, Observations(s, m, class, req, resp, inner, outer)) ELSE added

\* a statistics record handed to the GoRPC instrumentation
GoRpc(pkg, s, func, lo, hi) ==
  added' = Plus(added, Obs(<<GoRpcTime, pkg, s, func, "execution">>, lo, hi))

\* a request to a handler of one's own that is instrumented and fills in the statistics of the request, or clears them
Own(pkg, s, func, v, cleared, same) ==
  /\ same
  /\ added' = IF cleared THEN added
              ELSE LET L(metric, type) == <<metric, pkg, s, func, type>>
                       X(metric, type, n) == Obs(L(metric, type), n, n)
                   IN Plus(added, Plus(X(Size, "request", v.req), Plus(X(Size, "response", v.resp),
                        Plus(X(Time, "unmarshalling", v.un), Plus(X(Time, "execution", v.ex), X(Time, "marshalling", v.ma))))))

\* a look at the registry: the growth of every series (requests that name no method are reported without one)
Look(grown) ==
  LET named == {i \in DOMAIN grown : grown[i].series[4] # ""}
      S(i) == grown[i].series
  IN /\ {S(i) : i \in named} = DOMAIN added
     /\ \A i \in named :
          /\ grown[i].n = added[S(i)].n
          /\ grown[i].sum >= added[S(i)].lo - (IF S(i)[1] = Size THEN 0 ELSE added[S(i)].n + 1)
          /\ grown[i].sum <= added[S(i)].hi + (IF S(i)[1] = Size THEN 0 ELSE added[S(i)].n + 1)
     /\ added' = Nothing
=============================================================================
