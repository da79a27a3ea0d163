------------------------------ MODULE GoTypes ------------------------------
(***************************************************************************)
(* Go programs as the generator sees them, the TypeScript it promises for  *)
(* them, and the JSON values of a TypeScript type.                         *)
(*                                                                         *)
(* A program D is a function from names "package.Type" to declarations     *)
(*   [k: "struct", fields]           a struct                              *)
(*   [k: "def", t]                   a named slice or map                  *)
(*   [k: "scalar", base, consts]     a named string, number, boolean or    *)
(*                                   interface with its typed constants    *)
(* and a type expression is one of                                         *)
(*   [k: "prim", n] [k: "iface"] [k: "time"] [k: "ref", id] [k: "ptr", e]  *)
(*   [k: "slice", e] [k: "map", key, e] [k: "anon", fields]                *)
(* A field has: n (Go name), name (JSON name), omit, ignore, exported,     *)
(* inline, union, typ (explicit TypeScript type or "") and t.              *)
(*                                                                         *)
(* TypeScript syntax (as parsed from the generated files):                 *)
(*   [k: "kw", n] [k: "lit", n] [k: "ref", id] [k: "arr", e]               *)
(*   [k: "rec", key, e] [k: "obj", props, ext] [k: "or", ts] [k: "partial", e]  *)
(*   [k: "typeof", n] [k: "promise", e] [k: "raw", n]                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1 .. Len(s)}
Numbers == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32",
            "float64", "byte", "rune", "uintptr"}
Kw(n) == [k |-> "kw", n |-> n]
PrimTs(n) == IF n = "string" THEN "string" ELSE IF n = "bool" THEN "boolean" ELSE "number"

IsBytes(t) == t.k = "slice" /\ t.e.k = "prim" /\ t.e.n \in {"byte", "uint8"}

(* can the value of a Go type be nil and is it then sent as null? *)
RECURSIVE Nil(_, _)
Nil(D, t) ==
  CASE t.k \in {"ptr", "slice", "map"} -> TRUE
    [] t.k = "ref" -> D[t.id].k = "def"
    [] OTHER -> FALSE

RECURSIVE IsAny(_)
IsAny(t) == t.k = "iface" \/ (t.k = "ptr" /\ IsAny(t.e))

Alts(a) == IF a.k = "or" THEN a.ts ELSE <<a>>
NonNull(a) == SelectSeq(Alts(a), LAMBDA x : x # Kw("null"))
AdmitsNull(a) == \E i \in 1 .. Len(Alts(a)) : Alts(a)[i] = Kw("null")

Props(fields) == SelectSeq(fields, LAMBDA f : ~f.ignore /\ f.exported /\ ~f.inline /\ ~f.union)
Inlines(fields) == SelectSeq(fields, LAMBDA f : ~f.ignore /\ f.inline)
Unions(fields) == SelectSeq(fields, LAMBDA f : ~f.ignore /\ f.union)

(* the base of an embedded struct, Partial if it may be missing *)
PromisedBaseOf(D, a, f) ==
  IF f.t.k = "ptr" THEN a.k = "partial" /\ a.e.k = "ref" /\ a.e.id = f.t.e.id
  ELSE a.k = "ref" /\ a.id = f.t.id
PromisedBases(D, ext, fields) ==
  /\ Len(ext) = Len(Inlines(fields))
  /\ \A f \in Range(Inlines(fields)) : \E a \in Range(ext) : PromisedBaseOf(D, a, f)

(***************************************************************************)
(* Promised(D, a, t, omit): the TypeScript type a is the one promised for  *)
(* the Go type t; in a place that is left out when empty null is never sent*)
(***************************************************************************)
RECURSIVE PromisedBase(_, _, _)
RECURSIVE Promised(_, _, _, _)
RECURSIVE PromisedProp(_, _, _)
RECURSIVE PromisedProps(_, _, _)
Promised(D, a, t, omit) ==
  /\ Len(NonNull(a)) = 1
  /\ PromisedBase(D, NonNull(a)[1], t)
  /\ IsAny(t) \/ AdmitsNull(a) = (Nil(D, t) /\ ~omit)

PromisedBase(D, a, t) ==
  CASE t.k = "ptr"   -> PromisedBase(D, a, t.e)
    [] t.k = "prim"  -> a = Kw(PrimTs(t.n))
    [] t.k = "iface" -> a = Kw("any")
    [] t.k = "time"  -> a = Kw("number")
    [] t.k = "ref"   -> a.k = "ref" /\ a.id = t.id
    [] IsBytes(t)    -> a = Kw("string")
    [] t.k = "slice" -> a.k = "arr" /\ Promised(D, a.e, t.e, FALSE)
    [] t.k = "map"   -> a.k = "rec" /\ Promised(D, a.key, t.key, FALSE) /\ Promised(D, a.e, t.e, FALSE)
    [] t.k = "anon"  -> a.k = "obj" /\ PromisedProps(D, a.props, t.fields) /\ PromisedBases(D, a.ext, t.fields)
    [] OTHER -> FALSE

PromisedProp(D, prop, f) ==
  /\ prop.n = f.name
  /\ prop.opt = f.omit
  /\ IF f.typ # "" THEN prop.src = f.typ ELSE Promised(D, prop.t, f.t, f.omit)

PromisedProps(D, props, fields) ==
  LET fs == Props(fields)
  IN /\ Len(props) = Len(fs)
     /\ \A i \in 1 .. Len(fs) :
          \E j \in 1 .. Len(props) :
             PromisedProp(D, props[j], fs[i])

(* unions of structs: the type of exactly one member; none of them set is "undefined" *)
MemberRef(f) == IF f.t.k = "ptr" THEN f.t.e ELSE f.t
UnionOfScalars(D, fields) == \E f \in Range(Unions(fields)) : D[MemberRef(f).id].k = "scalar"

PromisedUnion(D, a, fields) ==
  LET us == Unions(fields)
      as == SelectSeq(Alts(a), LAMBDA x : x # Kw("undefined") /\ x # Kw("null"))
  IN /\ {x.k : x \in Range(as)} \subseteq {"ref"}
     /\ {x.id : x \in Range(as)} = {MemberRef(f).id : f \in Range(us)}

BaseTs(base) == IF base \in {"string", "any"} THEN base ELSE IF base = "bool" THEN "boolean" ELSE "number"

(* the declarations (syntax) ds of a name are the ones promised for the declaration d *)
PromisedDecl(D, ds, d) ==
  CASE d.k = "struct" /\ Len(Unions(d.fields)) > 0 /\ UnionOfScalars(D, d.fields) ->
         /\ {x.k : x \in Range(ds)} = {"const", "alias"} /\ Len(ds) = 2
         /\ \A x \in Range(ds) :
              IF x.k = "const"
                THEN {y.id : y \in Range(x.spread)} = {MemberRef(f).id : f \in Range(Unions(d.fields))}
                ELSE x.t.k \in {"typeof", "or", "ref"}
    [] d.k = "struct" /\ Len(Unions(d.fields)) > 0 ->
         Len(ds) = 1 /\ ds[1].k = "alias" /\ PromisedUnion(D, ds[1].t, d.fields)
    [] d.k = "struct" ->
         /\ Len(ds) = 1 /\ ds[1].k = "interface"
         /\ PromisedProps(D, ds[1].props, d.fields)
         /\ PromisedBases(D, ds[1].ext, d.fields)
    [] d.k = "def" -> Len(ds) = 1 /\ ds[1].k = "alias" /\ Len(NonNull(ds[1].t)) = 1
                      /\ PromisedBase(D, NonNull(ds[1].t)[1], d.t)
    [] d.k = "scalar" /\ Len(d.consts) > 0 -> Len(ds) = 1 /\ ds[1].k = "enum"
    [] d.k = "scalar" -> Len(ds) = 1 /\ ds[1].k = "alias" /\ ds[1].t = Kw(BaseTs(d.base))
    [] OTHER -> FALSE

(***************************************************************************)
(* JSON values: [j: "null"] [j: "bool"] [j: "num"] [j: "str", v]           *)
(* [j: "arr", e] [j: "obj", p: Seq([n, v])].                               *)
(* Member(T, v, a): v is a member of the TypeScript type a, where T maps   *)
(* the names of the generated files to their declarations.                 *)
(***************************************************************************)
RECURSIVE AllProps(_, _, _)
RECURSIVE Member(_, _, _)
RECURSIVE MemberObj(_, _, _)

(* the properties of an interface together with those of its bases *)
AllProps(T, ds, partial) ==
  LET own == [i \in 1 .. Len(ds[1].props) |->
                [ds[1].props[i] EXCEPT !.opt = @ \/ partial]]
      RECURSIVE Bases(_)
      Bases(i) == IF i > Len(ds[1].ext) THEN <<>>
                  ELSE LET a == ds[1].ext[i]
                           p == a.k = "partial"
                           b == IF p THEN a.e ELSE a
                       IN AllProps(T, T[b.id], partial \/ p) \o Bases(i + 1)
  IN own \o Bases(1)

MemberObj(T, v, props) ==
  /\ v.j = "obj"
  /\ \A x \in Range(props) : x.opt \/ \E y \in Range(v.p) : y.n = x.n
  /\ \A y \in Range(v.p) : \E x \in Range(props) : x.n = y.n /\ Member(T, y.v, x.t)
  /\ \A i, j \in 1 .. Len(v.p) : i # j => v.p[i].n # v.p[j].n

Member(T, v, a) ==
  CASE a.k = "or"  -> \E x \in Range(a.ts) : Member(T, v, x)
    [] a.k = "kw"  -> CASE a.n = "string"  -> v.j = "str"
                        [] a.n = "number"  -> v.j = "num"
                        [] a.n = "boolean" -> v.j = "bool"
                        [] a.n = "null"    -> v.j = "null"
                        [] a.n \in {"any", "unknown"} -> TRUE
                        [] OTHER -> FALSE
    [] a.k = "lit" -> v.j = "str" /\ v.v = a.n
    [] a.k = "arr" -> v.j = "arr" /\ \A x \in Range(v.e) : Member(T, x, a.e)
    [] a.k = "rec" -> v.j = "obj" /\ \A x \in Range(v.p) : Member(T, x.v, a.e)
    [] a.k = "obj" -> MemberObj(T, v, AllProps(T, <<a>>, FALSE))
    [] a.k = "ref" ->
         /\ a.id \in DOMAIN T
         /\ LET ds == T[a.id] IN
            CASE ds[1].k = "interface" -> MemberObj(T, v, AllProps(T, ds, FALSE))
              [] ds[1].k = "enum" -> \E m \in Range(ds[1].members) : m.v.j = v.j /\ m.v.v = v.v
              [] Len(ds) = 1 /\ ds[1].k = "alias" -> Member(T, v, ds[1].t)
              [] OTHER -> FALSE
    [] OTHER -> FALSE
=============================================================================
