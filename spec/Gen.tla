--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* What a run of the generator has to do about types: the types needed for *)
(* a configuration, and the TypeScript files they are declared in.         *)
(*                                                                         *)
(* A program P has: D (declarations, see GoTypes), pkg (name -> package),  *)
(* targets: Seq([out: BOOLEAN, types: Seq(type expression)]),              *)
(* mapped: Seq(package), listed: Seq(name),                                 *)
(* blocked: Seq(package) whose file cannot be written.                     *)
(***************************************************************************)
EXTENDS GoTypes

RECURSIVE Refs(_)
(* the names a type expression mentions *)
FieldRefs(fields) ==
  UNION {Refs(f.t) : f \in {g \in Range(fields) : ~g.ignore /\ (g.exported \/ g.inline)}}
Refs(t) ==
  CASE t.k = "ref" -> {t.id}
    [] t.k \in {"ptr", "slice"} -> Refs(t.e)
    [] t.k = "map" -> Refs(t.key) \cup Refs(t.e)
    [] t.k = "anon" -> FieldRefs(t.fields)
    [] OTHER -> {}
DeclRefs(D, n) ==
  IF n \notin DOMAIN D THEN {}
  ELSE CASE D[n].k = "def" -> Refs(D[n].t)
         [] D[n].k = "struct" -> FieldRefs(D[n].fields)
         [] OTHER -> {}

RECURSIVE Closure(_, _, _)
Closure(D, done, todo) ==
  IF todo = {} THEN done
  ELSE LET n == CHOOSE x \in todo : TRUE
       IN Closure(D, done \cup {n}, (todo \cup DeclRefs(D, n)) \ (done \cup {n}))

TargetRefs(t) == UNION {Refs(x) : x \in Range(t.types)}
Outs(P) == {t \in Range(P.targets) : t.out}
(* what has to be declared in TypeScript, and what is looked at at all *)
Needed(P) == IF Outs(P) = {} THEN {}
             ELSE Closure(P.D, {}, (UNION {TargetRefs(t) : t \in Outs(P)}) \cup Range(P.listed))
Seen(P)   == Closure(P.D, {}, (UNION {TargetRefs(t) : t \in Range(P.targets)}) \cup Range(P.listed))

Found(P, N)  == N \subseteq DOMAIN P.D
Mapped(P, N) == \A n \in N : P.pkg[n] \in Range(P.mapped)
(* the files of some packages can not be written *)
Blocked(P, N) == \E n \in N : P.pkg[n] \in Range(P.blocked)
MustFail(P)    == ~(Found(P, Needed(P)) /\ Mapped(P, Needed(P))) \/ Blocked(P, Needed(P))
MustSucceed(P) == Found(P, Seen(P)) /\ Mapped(P, Seen(P)) /\ ~Blocked(P, Seen(P))

(***************************************************************************)
(* The files: F is a sequence of [pkg (the mapped package or "client"),    *)
(* file, decls: Seq([n, k]), refs: Seq(name), imports: Seq([alias, exists])]*)
(***************************************************************************)
DeclsOf(f, n) == SelectSeq(f.decls, LAMBDA d : d.id = n)
OneDecl(ds) == Len(ds) = 1 \/ (Len(ds) = 2 /\ {d.k : d \in Range(ds)} = {"const", "alias"})
DeclaredOnce(P, F, n) ==
  /\ \E f \in Range(F) : f.pkg = P.pkg[n] /\ OneDecl(DeclsOf(f, n))
  /\ \A f \in Range(F) : f.pkg # P.pkg[n] => \A d \in Range(f.decls) : d.id # n
(* every name a file uses is declared in the file it stands for *)
Resolved(F, f) ==
  /\ \A r \in Range(f.refs) : \E g \in Range(F) : \E d \in Range(g.decls) : d.id = r
  /\ \A i \in Range(f.imports) : i.exists
  /\ \A i, j \in 1 .. Len(f.imports) : i # j => f.imports[i].alias # f.imports[j].alias
  /\ f.errors = 0
=============================================================================
