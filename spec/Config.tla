-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Loading a configuration file, and what its targets expose.              *)
(* A document is [targets: Seq([n, package, services: Seq([ep, n]), module,*)
(*  out, gorpc: Seq, tsrpc: Seq, skip]), mappings: Seq([p, out, structs,   *)
(*  scalars, module]), mod: [n, p: Seq of path segments, kind], fault]     *)
(* kind: "none" (no path), "rel" or "abs"; fault: "" or what is wrong with *)
(* the file (then loading it fails), or what its author left out ("null":  *)
(* a target or mapping without settings is an error or has none).          *)
(* loc: [dir: directory of the file, mods: Seq([d, gm])] the go.mod files  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1 .. Len(s)}

(* a path, segment by segment *)
RECURSIVE Walk(_, _)
Walk(at, segs) ==
  IF segs = <<>> THEN at
  ELSE Walk(CASE Head(segs) \in {"", "."} -> at
              [] Head(segs) = ".." -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
              [] OTHER -> Append(at, Head(segs)), Tail(segs))
ModuleDir(doc, loc) == Walk(IF doc.mod.kind = "abs" THEN <<>> ELSE loc.dir, doc.mod.p)

GoMods(doc, loc) == IF doc.mod.kind = "none" THEN {} ELSE {m.gm : m \in {x \in Range(loc.mods) : x.d = ModuleDir(doc, loc)}}
Fails(doc, loc) ==
  \/ doc.fault # "" /\ doc.fault # "null"
  \/ \E g \in GoMods(doc, loc) : g.bad # ""

TargetAs(t, r) ==
  /\ r.package = t.package /\ r.module = t.module /\ r.out = t.out /\ r.skip = t.skip
  /\ Range(r.services) = Range(t.services) /\ Len(r.services) = Len(t.services)
  /\ r.gorpc = t.gorpc /\ r.tsrpc = t.tsrpc
MappingAs(m, r) == r.gopackage = m.p /\ r.out = m.out /\ r.structs = m.structs /\ r.scalars = m.scalars /\ r.module = m.module
GoModAs(gms, r) ==
  IF gms = {} THEN r.kind = "none"
  ELSE \E g \in gms : r.kind = "mod" /\ r.n = g.n /\ r.reqs = g.reqs /\ r.reps = g.reps

(* r: the result of loading *)
Loaded(doc, loc, r) ==
  IF r.kind = "error" THEN Fails(doc, loc) \/ doc.fault = "null"
  ELSE /\ r.kind = "conf" /\ ~Fails(doc, loc)
       /\ Len(r.targets) = Len(doc.targets) /\ Len(r.mappings) = Len(doc.mappings)
       /\ \A t \in Range(doc.targets) : \E x \in Range(r.targets) : x.n = t.n /\ TargetAs(t, x)
       /\ \A m \in Range(doc.mappings) : \E x \in Range(r.mappings) : x.p = m.p /\ MappingAs(m, x)
       /\ r.mod.n = doc.mod.n
       /\ IF doc.mod.kind = "none" THEN r.mod.p = <<>> ELSE Walk(<<>>, r.mod.p) = ModuleDir(doc, loc)
       /\ (doc.mod.kind = "rel" => r.mod.p = ModuleDir(doc, loc))
       /\ GoModAs(GoMods(doc, loc), r.gomod)

(* which services a target exposes over HTTP and over GoRPC *)
IsTSRPC(t, s) == t.tsrpc = <<>> \/ s \in Range(t.tsrpc)
IsGoRPC(t, s) == s \in Range(t.gorpc)
==============================================================================
