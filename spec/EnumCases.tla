----------------------------- MODULE EnumCases -----------------------------
(***************************************************************************)
(* Packages of named scalars and constant declarations, built step by step *)
(* (run in simulation), for C24.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Env == JsonDeserialize("env.json")
VARIABLES types, groups, left, uses, conf, phase
vars == <<types, groups, left, uses, conf, phase>>

Pkgs == {"s1", "d1", "d2"}
TypeNames == {"Status", "StatusCode", "Kind", "low", "V2x", "ID"}
Bases == {"string", "int", "int8", "uint16", "int64", "float64", "float32", "rune", "byte", "uint", "bool"}
Uses == {"field", "ptr", "slice", "key", "mapval", "anon", "arg", "ret", "listed", "none"}

(* literals: source text, value as JSON text (numbers as JavaScript shows them), which types they fit *)
S(src, v) == [src |-> src, j |-> "str", v |-> v, fit |-> "str"]
N(src, v, fit) == [src |-> src, j |-> "num", v |-> v, fit |-> fit]
Lits == {
  S("\"a\"", "\"a\""), S("\"\"", "\"\""), S("\"it's\"", "\"it's\""), S("\"q\\\"q\"", "\"q\\\"q\""),
  S("\"t\\tn\\n\"", "\"t\\tn\\n\""), S("\"\\a\\v\\x41\\101\\u00e9\\U0001F600\"", "\"\\u0007\\u000bAA\\u00e9\\ud83d\\ude00\""),
  S("`raw\\n\"q\"`", "\"raw\\\\n\\\"q\\\"\""), S("`two\nlines`", "\"two\\nlines\""), S("`${x}`", "\"${x}\""),
  S("\"<&> /* x */ // y\"", "\"<&> /* x */ // y\""), S("\"\\\\\"", "\"\\\\\""),
  N("0", "0", "nat"), N("1", "1", "nat"), N("42", "42", "nat"), N("0x1F", "31", "nat"), N("0o17", "15", "nat"), N("017", "15", "nat"), N("0B101", "5", "nat"),
  N("'a'", "97", "nat"), N("'\\n'", "10", "nat"), N("'\\''", "39", "nat"), N("1_0", "10", "nat"), N("(5)", "5", "nat"), N("+3", "3", "nat"), N("-(-6)", "6", "nat"),
  N("1.0", "1", "nat"), N("1e2", "100", "nat"),
  N("-7", "-7", "int"), N("-0x10", "-16", "int"), N("-'a'", "-97", "int"), N("-1.0", "-1", "int"), N("-(1)", "-1", "int"),
  N("1_000", "1000", "big"), N("0XFFF", "4095", "big"), N("'\\u20ac'", "8364", "big"),
  N("0.5", "0.5", "float"), N(".5", "0.5", "float"), N("1.", "1", "float"), N("1.5E-2", "0.015", "float"), N("0x1p-2", "0.25", "float"), N("1_0.5", "10.5", "float"),
  N("01.5", "1.5", "float"), N("-2.5", "-2.5", "float"), N("1e30", "1e+30", "float"), N("0.1", "0.1", "float"),
  N("4294967296", "4294967296", "wide"), N("9007199254740991", "9007199254740991", "wide"), N("0x1_0000_0001", "4294967297", "wide"), N("-2147483649", "-2147483649", "wideneg"),
  N("3.141592653589793", "3.141592653589793", "long"), N("123456789.12345679", "123456789.12345679", "long"), N("1.0000000000000002", "1.0000000000000002", "long"), N("-0.1234567890123", "-0.1234567890123", "long") }

Base(t) == IF types[t].of = 0 THEN types[t].base ELSE types[types[t].of].base
Kinds(b) == CASE b = "string" -> {"str"} [] b = "bool" -> {} [] b \in {"uint8", "byte"} -> {"nat"} [] b = "int8" -> {"nat", "int"}
              [] b = "uint16" -> {"nat", "big"} [] b = "uint" -> {"nat", "big", "wide"}
              [] b = "rune" -> {"nat", "int", "big"} [] b \in {"int", "int64"} -> {"nat", "int", "big", "wide", "wideneg"}
              [] b = "float64" -> {"nat", "int", "big", "float", "wide", "wideneg", "long"}
              [] OTHER -> {"nat", "int", "big", "float"}
Fits(l, b) == l.fit \in Kinds(b)

Init ==
  /\ types = <<>> /\ groups = <<>> /\ left = 0 /\ uses = <<>>
  /\ phase = "types"
  /\ conf \in [t : 1 .. 6, g : 0 .. Env.g]

AddType ==
  /\ phase = "types" /\ Len(types) < conf.t
  /\ \E p \in Pkgs, n \in TypeNames, f \in {"a", "b", "kind_gen", "zz_generated.deepcopy"}, of \in 0 .. Len(types) :
       /\ \A i \in 1 .. Len(types) : <<types[i].pkg, types[i].n>> # <<p, n>>
       /\ (IF of = 0 THEN TRUE ELSE types[of].pkg = p /\ types[of].of = 0)
       /\ \E b \in IF of = 0 THEN Bases ELSE {""} : types' = Append(types, [pkg |-> p, n |-> n, f |-> f, base |-> b, of |-> of])
  /\ UNCHANGED <<groups, left, uses, conf, phase>>

(* a constant declaration: const (...) or const x; a file of the package, a test file or a function *)
Rooms(t) == Base(t) # "bool"
AddGroup ==
  /\ phase = "groups" /\ left = 0 /\ Len(groups) < conf.g
  /\ \E p \in {types[i].pkg : i \in 1 .. Len(types)}, f \in {"a", "b", "c_gen", "c", "x.pb", "z_test", "func"}, n \in {0, 1, 2, 3, Env.many} :
       /\ groups' = Append(groups, [pkg |-> p, f |-> f, paren |-> n # 0, specs |-> <<>>])
       /\ left' = IF n = 0 THEN 1 ELSE n
  /\ UNCHANGED <<types, uses, conf, phase>>
Last == groups[Len(groups)]
Open(s) == Len(s.names) < s.n
AddSpec ==
  /\ phase = "groups" /\ left > 0
  /\ (IF Last.specs = <<>> THEN TRUE ELSE ~Open(Last.specs[Len(Last.specs)]) /\ (Last.specs[Len(Last.specs)].shape = "again" \/ Len(Last.specs[Len(Last.specs)].lits) = Len(Last.specs[Len(Last.specs)].names)))
  /\ \E n \in 1 .. 2 :
     \E s \in UNION {
        {[shape |-> "typed", t |-> t] : t \in {x \in 1 .. Len(types) : types[x].pkg = Last.pkg /\ Rooms(x)}},
        {[shape |-> "foreign", t |-> t] : t \in {x \in 1 .. Len(types) : Last.pkg = "s1" /\ types[x].pkg # "s1" /\ types[x].n # "low" /\ Rooms(x)}},
        {[shape |-> sh, t |-> 0] : sh \in {"untyped", "string", "int"}},
        IF Last.specs # <<>> /\ Last.specs[Len(Last.specs)].shape \in {"typed", "again"} /\ Last.specs[Len(Last.specs)].n = n
          THEN {[shape |-> "again", t |-> Last.specs[Len(Last.specs)].t]} ELSE {} } :
       groups' = [groups EXCEPT ![Len(groups)].specs = Append(@, [shape |-> s.shape, t |-> s.t, n |-> n, names |-> <<>>, lits |-> <<>>])]
  /\ UNCHANGED <<types, left, uses, conf, phase>>
Spec == Last.specs[Len(Last.specs)]
NeedsLit(s) == s.shape # "again" /\ Len(s.lits) < Len(s.names)
AddName ==
  /\ phase = "groups" /\ left > 0
  /\ (IF Last.specs = <<>> THEN FALSE ELSE Open(Spec) /\ ~NeedsLit(Spec))
  /\ LET g == Len(groups)  k == Len(Last.specs)
         id == ToString(g) \o ToString(k) \o ToString(Len(Spec.names))
     IN \E form \in (IF Spec.t = 0 THEN {"other", "none", "blank"} ELSE {"own", "other", "none", "lower", "blank", "twice", "snake", "upsnake", "bare", "ownbare", "lowbare"}) :
        \E suffix \in (CASE form \in {"none", "bare"} -> {"One", "URL", "A1b"} [] form = "blank" -> {"x"} [] OTHER -> {"One", "A1b", "9", "URL", "x"}) :
        \E o \in (IF form = "other" THEN 1 .. Len(types) ELSE {1}) :
           /\ groups' = [groups EXCEPT ![g].specs[k].names = Append(@, [form |-> form, suffix |-> suffix, id |-> id, o |-> o])]
           /\ left' = IF Len(Spec.names) + 1 = Spec.n /\ Spec.shape = "again" THEN left - 1 ELSE left
  /\ UNCHANGED <<types, uses, conf, phase>>
AddLit ==
  /\ phase = "groups" /\ left > 0
  /\ (IF Last.specs = <<>> THEN FALSE ELSE NeedsLit(Spec))
  /\ LET g == Len(groups)  k == Len(Last.specs)
     IN \E l \in {x \in Lits : Fits(x, IF Spec.t = 0 THEN (IF Spec.shape = "int" THEN "int8" ELSE "string") ELSE Base(Spec.t))} :
           /\ groups' = [groups EXCEPT ![g].specs[k].lits = Append(@, l)]
           /\ left' = IF Len(Spec.names) = Spec.n THEN left - 1 ELSE left
  /\ UNCHANGED <<types, uses, conf, phase>>
Use ==
  /\ phase = "uses" /\ Len(uses) < Len(types)
  /\ \E u \in Uses : /\ types[Len(uses) + 1].n = "low" => u \notin {"arg", "ret"}
                     /\ u = "key" => Base(Len(uses) + 1) # "bool"
                     /\ uses' = Append(uses, u)
  /\ UNCHANGED <<types, groups, left, conf, phase>>
NextPhase ==
  /\ CASE phase = "types" -> Len(types) = conf.t /\ phase' = "groups"
       [] phase = "groups" -> left = 0 /\ Len(groups) = conf.g /\ phase' = "uses"
       [] phase = "uses" -> Len(uses) = Len(types) /\ phase' = "done"
       [] OTHER -> FALSE
  /\ UNCHANGED <<types, groups, left, uses, conf>>
Finish ==
  /\ phase = "done" /\ phase' = "end"
  /\ PrintT("PROG " \o ToJson([types |-> types, groups |-> groups, uses |-> uses]))
  /\ UNCHANGED <<types, groups, left, uses, conf>>
Next == AddType \/ AddGroup \/ AddSpec \/ AddName \/ AddLit \/ Use \/ NextPhase \/ Finish
=============================================================================
