----------------------------- MODULE TraceErr -----------------------------
EXTENDS ErrChain, Json, TLCExt

Env    == JsonDeserialize("env.json")
Traces == JsonDeserialize("traces.json")
MCFocus == Range(Env.focus)
VARIABLES tr, l
tvars == <<chain, got, tr, l>>

Step(ev) ==
  CASE ev.e = "new"     -> New(ev.type, ev.text, ev.data)
    [] ev.e = "newchain" -> NewChain(ev.nodes)
    [] ev.e = "cause"   -> Cause(ev.ends, ev.text)
    [] ev.e = "fmt"     -> Printed(ev.texts)
    [] ev.e = "wrap"    -> Wrap(ev.kind, ev.msg, ev.data)
    [] ev.e = "hop"     -> Hop(ev.nil, ev.text)
    [] ev.e = "deliver" -> Deliver(ev.nil, ev.texts, ev.others, ev.expected)
    [] ev.e = "typed"   -> DeliverTyped(ev.nil, ev.data, ev.others, ev.expected)
    [] ev.e = "is"      -> Is(ev.type, ev.text, ev.res)
    [] ev.e = "as"      -> As(ev.type, ev.res, ev.data, ev.before)
    [] OTHER -> FALSE

TraceInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
