------------------------------- MODULE Service -------------------------------
(***************************************************************************)
(* What a service package exposes in Go and TypeScript.                    *)
(* A program is [svcs: Seq(service), calls of this program observed]       *)
(* service: [n, kind: "iface" | "struct", ep, ts, go: selected?,           *)
(*   methods: Seq([n: [n, ex, lc], in: is its file part of the package?,   *)
(*     recv: "ptr" | "val", sess, args: Seq([n, t]), rets: Seq([n, t])])]  *)
(* n.ex: is the name exported, n.lc: with a small first letter;            *)
(* t: [w: constructors from the outside, l: type as the Go type checker    *)
(*     writes it]                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1 .. Len(s)}

Exposed(s) == {m \in Range(s.methods) : m.n.ex /\ m.in /\ (s.kind = "struct" => m.recv = "ptr")}

RECURSIVE TypeText(_, _)
TypeText(w, l) ==
  IF w = <<>> THEN l
  ELSE IF w = <<"kmap">> THEN "map[" \o l \o "]string"
  ELSE (CASE Head(w) = "ptr" -> "*" [] Head(w) = "slice" -> "[]" [] Head(w) = "map" -> "map[string]" [] Head(w) = "imap" -> "map[int64]") \o TypeText(Tail(w), l)
Types(ps) == [i \in 1 .. Len(ps) |-> TypeText(ps[i].t.w, ps[i].t.l)]

(***************************************************************************)
(* Go                                                                      *)
(***************************************************************************)
(* kind: "tsclient", "tsface" (its interface), "goclient": a method per exposed method, an error last;
   clients over HTTP take a context first *)
Signature(m, ctx) ==
  [n |-> m.n.n, params |-> (IF ctx THEN <<"context.Context">> ELSE <<>>) \o Types(m.args), rets |-> Types(m.rets) \o <<"error">>]
Bridge(m) == [n |-> m.n.n, v |-> m.n.n]
(* target: [tsrpc: is anything selected, skip] *)
Present(target, s, kind) ==
  CASE kind = "tsproxy" -> target.tsrpc /\ s.ts
    [] kind \in {"tsclient", "tsface"} -> target.tsrpc /\ s.ts /\ ~target.skip
    [] OTHER -> s.go
ObjectAs(target, s, o) ==
  /\ o.present = Present(target, s, o.kind)
  /\ o.present =>
       CASE o.kind \in {"tsclient", "tsface"} -> Range(o.methods) = {Signature(m, TRUE) : m \in Exposed(s)} /\ Len(o.methods) = Cardinality(Exposed(s))
         [] o.kind = "goclient" -> Range(o.methods) = {Signature(m, FALSE) : m \in Exposed(s)} /\ Len(o.methods) = Cardinality(Exposed(s))
         [] o.kind = "tsproxy" -> Range(o.consts) = {Bridge(m) : m \in Exposed(s)}  (* with the server's methods: see the calls *)
         [] OTHER -> TRUE

(* a call by the name of a method reaches that method with what was sent, and nothing else does *)
CallAs(s, c) ==
  IF \E m \in Exposed(s) : m.n.n = c.m
  THEN /\ c.execs = <<[svc |-> s.n, m |-> c.m, args |-> c.sent]>>
       /\ c.got = c.given /\ c.failed = FALSE
  ELSE c.execs = <<>>

(***************************************************************************)
(* TypeScript                                                              *)
(***************************************************************************)
ResultName(rs, i) == IF rs[i].n \notin {"", "_"} THEN rs[i].n ELSE IF i = 1 THEN "ret" ELSE "ret_" \o ToString(i - 1)
InTypeScript(target, s) == target.out /\ (s.ts \/ ~target.tsrpc)
(* class: [present, endpoint, functions: Seq([n, params])] *)
ClassAs(target, s, c) ==
  /\ c.present = InTypeScript(target, s)
  /\ c.present =>
       /\ c.endpoint = s.ep
       /\ Range(c.functions) = {[n |-> m.n.lc, params |-> Len(m.args)] : m \in Exposed(s)}
       /\ Len(c.functions) = Cardinality(Exposed(s))
(* run: [fn, args: values it was called with, reply: what the transport resolved to (<<>>: it failed),
   calls: Seq([m, data]), kind, one, object: Seq([n, v])] *)
FunctionAs(s, r) ==
  \E m \in Exposed(s) :
    /\ m.n.lc = r.fn
    /\ Len(r.args) = Len(m.args)
    /\ r.calls = <<[m |-> m.n.n, data |-> r.args]>>
    /\ CASE r.reply = <<>> -> r.kind = "failed"
         [] Len(m.rets) = 0 -> r.kind = "nothing"
         [] Len(m.rets) = 1 -> r.kind = "one" /\ r.one = r.reply[1]
         [] OTHER -> /\ r.kind = "object"
                     /\ Len(r.object) = Len(m.rets)
                     /\ Range(r.object) = {[n |-> ResultName(m.rets, i), v |-> r.reply[i]] : i \in 1 .. Len(m.rets)}
==============================================================================
