-------------------------------- MODULE GoRpc --------------------------------
(***************************************************************************)
(* A GoRPC server and its clients: calls of service methods over one       *)
(* connection, the service implementation, and the statistics handler.     *)
(*                                                                         *)
(* A call goes through  called -> ran -> returned / failed.  The           *)
(* implementation cannot see which call it runs for: an execution belongs  *)
(* to any call of the method with these arguments that has not run yet.    *)
(* Values are canonical texts.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Svcs   \* [service -> [pkg, ms : [method -> [nargs, nrets]]]]

VARIABLES calls,     \* [call id -> record]
          handler,   \* a statistics handler is set
          up         \* the server is there
gvars == <<calls, handler, up>>

NoCalls == [k \in {} |-> 0]
Init == calls = NoCalls /\ handler = FALSE /\ up = TRUE

\* what can go wrong in the transport, and whether the method runs nevertheless
Faults == {"none", "dead", "unencArg", "unencRet", "mid"}
MayRun(f) == f \in {"none", "unencRet", "mid"}

Setup(h) == calls = NoCalls /\ handler' = h /\ UNCHANGED <<calls, up>>

Call(k, s, m, args, fault) ==
  /\ k \notin DOMAIN calls
  /\ s \in DOMAIN Svcs /\ m \in DOMAIN Svcs[s].ms
  /\ Len(args) = Svcs[s].ms[m].nargs
  /\ fault \in Faults
  /\ calls' = (k :> [svc |-> s, m |-> m, args |-> args, fault |-> fault, runs |-> 0, rets |-> <<>>,
                     stat |-> FALSE, state |-> "called"]) @@ calls
  /\ UNCHANGED <<handler, up>>

\* the implementation runs, without an HTTP session
Exec(s, m, w, r, args, rets) ==
  /\ ~w /\ ~r
  /\ Len(rets) = Svcs[s].ms[m].nrets
  /\ \E k \in DOMAIN calls :
       /\ calls[k].svc = s /\ calls[k].m = m /\ calls[k].args = args
       /\ calls[k].runs = 0 /\ MayRun(calls[k].fault)
       /\ calls' = [calls EXCEPT ![k].runs = 1, ![k].rets = rets]
  /\ UNCHANGED <<handler, up>>

Stat(pkg, s, func, negative) ==
  /\ handler /\ ~negative
  /\ s \in DOMAIN Svcs /\ pkg = Svcs[s].pkg
  /\ \E k \in DOMAIN calls :
       /\ calls[k].svc = s /\ func = s \o calls[k].m \o "Request"
       /\ calls[k].runs = 1 /\ ~calls[k].stat
       /\ calls' = [calls EXCEPT ![k].stat = TRUE]
  /\ UNCHANGED <<handler, up>>

Return(k, rets) ==
  /\ k \in DOMAIN calls
  /\ calls[k].state = "called" /\ calls[k].runs = 1 /\ calls[k].fault = "none"
  /\ rets = calls[k].rets
  /\ calls' = [calls EXCEPT ![k].state = "returned"]
  /\ UNCHANGED <<handler, up>>

\* the client error, together with zero results
Fail(k, zero) ==
  /\ k \in DOMAIN calls
  /\ calls[k].state = "called" /\ calls[k].fault # "none" /\ zero
  /\ calls' = [calls EXCEPT ![k].state = "failed"]
  /\ UNCHANGED <<handler, up>>

End ==
  /\ \A k \in DOMAIN calls :
       /\ calls[k].state \in {"returned", "failed"}
       /\ calls[k].fault = "none" => calls[k].runs = 1
       /\ calls[k].stat = (handler /\ calls[k].runs = 1)
  /\ UNCHANGED gvars

---------------------------------------------------------------------------
\* what the above amounts to
AtMostOneRun == \A k \in DOMAIN calls : calls[k].runs <= 1
NoResultWithoutRun == \A k \in DOMAIN calls : calls[k].state = "returned" => calls[k].runs = 1
NoStatWithoutRun == \A k \in DOMAIN calls : calls[k].stat => calls[k].runs = 1
FailedOnlyByFault == \A k \in DOMAIN calls : calls[k].state = "failed" => calls[k].fault # "none"
=============================================================================
