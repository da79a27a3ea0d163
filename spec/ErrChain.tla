----------------------------- MODULE ErrChain -----------------------------
(***************************************************************************)
(* An error value on its way from a service method to a Go caller.         *)
(*                                                                         *)
(* The service makes an error (New), wraps it (Wrap), possibly gets it     *)
(* from another service it called (Hop: the error crosses the wire and     *)
(* goes on), and returns it (Deliver).  The caller then looks at it with   *)
(* Error(), errors.Unwrap, errors.Is and errors.As.                        *)
(*                                                                         *)
(* A chain is a sequence of nodes, outermost first; a node has the type    *)
(* (with its package), the text Error() returns, and its exported data.    *)
(* Aspects: text (C07: nilness, texts, chain, concrete results, company)   *)
(*          match (C08: Is and As)                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Focus
VARIABLES chain,  \* what the service has, as it was made
          got     \* FALSE, or the caller has it
vars == <<chain, got>>

Chk(aspect, p) == (aspect \in Focus) => p
Range(s) == {s[i] : i \in DOMAIN s}

Init == chain = <<>> /\ got = FALSE

\* texts: the driver makes every leaf so that its text is the given message
New(type, text, data) ==
  /\ chain = <<>> /\ ~got
  /\ chain' = <<[type |-> type, text |-> text, data |-> data]>>
  /\ UNCHANGED got

\* errors of the standard library that bring a chain of their own
NewChain(nodes) ==
  /\ chain = <<>> /\ ~got /\ nodes # <<>>
  /\ chain' = nodes
  /\ UNCHANGED got

\* the text of a wrapper around something with text t
WrapText(kind, msg, t) ==
  CASE kind \in {"colon", "pkgmsg", "custptr"} -> msg \o ": " \o t
    [] kind = "pkgwrap"   -> msg \o ": " \o t
    [] kind = "suffix"    -> t \o " " \o msg
    [] kind = "middle"    -> msg \o " [" \o t \o "] " \o msg
    [] kind = "bare"      -> t
    [] kind = "glued"     -> msg \o t
    [] kind = "withstack" -> t
    [] kind = "custval"   -> msg

WrapTypes(kind) ==
  CASE kind \in {"colon", "suffix", "middle", "bare", "glued"} -> <<"*fmt.wrapError|fmt">>
    [] kind = "pkgmsg"    -> <<"*errors.withMessage|github.com/pkg/errors">>
    [] kind = "pkgwrap"   -> <<"*errors.withStack|github.com/pkg/errors", "*errors.withMessage|github.com/pkg/errors">>
    [] kind = "withstack" -> <<"*errors.withStack|github.com/pkg/errors">>
    [] kind = "custptr"   -> <<"*svc.WrapPtr|example.com/fx/svc">>
    [] kind = "custval"   -> <<"svc.WrapVal|example.com/fx/svc">>

Wrap(kind, msg, data) ==
  LET ts == WrapTypes(kind)
      text == WrapText(kind, msg, chain[1].text) IN
  /\ chain # <<>> /\ ~got
  /\ chain' = [i \in 1 .. Len(ts) |-> [type |-> ts[i], text |-> text, data |-> data]] \o chain
  /\ UNCHANGED got

\* crossing the wire changes nothing
Hop(isnil, text) ==
  /\ Chk("text", ~isnil /\ text = chain[1].text)
  /\ UNCHANGED vars

\* stack-trace wrappers have no text of their own: a chain of texts without immediate repetitions
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s
              ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Texts(c) == [i \in DOMAIN c |-> c[i].text]

\* the caller receives the error in a result declared as error; texts is what walking
\* errors.Unwrap gives it, others the other results and what they were
Deliver(isnil, texts, others, expected) ==
  /\ ~got
  /\ Chk("text", isnil = (chain = <<>>))
  /\ Chk("text", ~isnil => texts[1] = chain[1].text)
  /\ Chk("text", ~isnil => Squeeze(texts) = Squeeze(Texts(chain)))
  /\ Chk("text", others = expected)
  /\ got' = TRUE
  /\ UNCHANGED chain

\* the caller receives a result declared with a concrete error type
DeliverTyped(isnil, data, others, expected) ==
  /\ ~got
  /\ Chk("text", isnil = (chain = <<>>))
  /\ Chk("text", ~isnil => data = chain[1].data)
  /\ Chk("text", others = expected)
  /\ got' = TRUE
  /\ UNCHANGED chain

\* following Cause() until there is none, like errors.Cause of github.com/pkg/errors, ends at the root
Cause(ends, text) ==
  /\ got
  /\ Chk("text", ends /\ text = chain[Len(chain)].text)
  /\ UNCHANGED vars

\* printing the error prints its text
Printed(texts) ==
  /\ got
  /\ Chk("text", \A i \in DOMAIN texts : texts[i] = chain[1].text)
  /\ UNCHANGED vars

StackType == "*errors.withStack|github.com/pkg/errors"

Is(type, text, res) ==
  /\ got
  /\ Chk("match", type # StackType =>
       (res = \E i \in DOMAIN chain : chain[i].type = type /\ chain[i].text = text))
  /\ UNCHANGED vars

\* errors.As with a target of the given type; data is what the target holds afterwards, before what it held
As(type, res, data, before) ==
  LET hits == {i \in DOMAIN chain : chain[i].type = type} IN
  /\ got
  /\ Chk("match", res = (hits # {}))
  /\ Chk("match", res => data = chain[CHOOSE i \in hits : \A j \in hits : i <= j].data)
  /\ Chk("match", ~res => data = before)
  /\ UNCHANGED vars
=============================================================================
