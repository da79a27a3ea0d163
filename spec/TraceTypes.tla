----------------------------- MODULE TraceTypes -----------------------------
(* Judges what was generated for programs, and the JSON that was sent. *)
EXTENDS GoTypes, Json, TLCExt
Traces == JsonDeserialize("traces.json")
Programs == JsonDeserialize("env.json").programs
VARIABLES tr, l
D(t) == Programs[t.prog].D
T(t) == Programs[t.prog].T

RetType(ret, n, i) ==
  LET e == ret.e IN IF n = 1 THEN e ELSE e.props[i].t

Step(t, ev) ==
  CASE ev.e = "decl" -> ev.id \in DOMAIN T(t) /\ PromisedDecl(D(t), T(t)[ev.id], D(t)[ev.id])
    [] ev.e = "prop" ->
         \* one field of a struct (to name what is wrong)
         /\ ev.id \in DOMAIN T(t) /\ T(t)[ev.id][1].k = "interface"
         /\ \E p \in Range(T(t)[ev.id][1].props) : PromisedProp(D(t), p, Props(D(t)[ev.id].fields)[ev.i])
    [] ev.e = "fn" ->
         \* the parameters and results of a client function
         /\ Len(ev.params) = Len(ev.args)
         /\ \A i \in 1 .. Len(ev.args) : Promised(D(t), ev.params[i].t, ev.args[i], FALSE)
         /\ ev.ret.k = "promise"
         /\ CASE Len(ev.rets) = 0 -> ev.ret.e = Kw("void")
              [] Len(ev.rets) = 1 -> Promised(D(t), ev.ret.e, ev.rets[1], FALSE)
              [] OTHER -> ev.ret.e.k = "obj" /\ Len(ev.ret.e.props) = Len(ev.rets)
                          /\ \A i \in 1 .. Len(ev.rets) : Promised(D(t), ev.ret.e.props[i].t, ev.rets[i], FALSE)
    [] ev.e = "wire" ->
         \A i \in 1 .. Len(ev.vs) : Member(T(t), ev.vs[i], RetType(ev.ret, Len(ev.vs), i))
    [] OTHER -> FALSE

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Traces[tr], Traces[tr].ev[l]) = TRUE     \* (a value, so that TLC does not branch on how it holds)
  /\ l' = l + 1
  /\ tr' = tr
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict  == JsonSerialize("verdict.json", [i \in 1 .. Len(Traces) |-> TLCGet(i)])
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
