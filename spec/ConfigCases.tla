----------------------------- MODULE ConfigCases -----------------------------
(* Configuration documents, places and go.mod files, built step by step (run in simulation), for C23. *)
EXTENDS Config, Json
Env == JsonDeserialize("env.json")
VARIABLES doc, loc, style, conf, phase
vars == <<doc, loc, style, conf, phase>>

Names == {"demo", "Demo", "a-b", "x.y", "yes", "1.0", "a b", "with: colon", "null", "@un"}
Packages == {"ex.com/app", "ex.com/app/services/user", "github.com/foo/Bar/v2", "gopkg.in/yaml.v2", "time", "foo/bar", "ex.com/app/x"}
Services == {"Service", "service", "ServiceA", "Serv", "A", "B", "Demo", "@Uber", "on", "Service2"}
Selected == Services \cup {"*", "", "~", "!", ".*", "Service*", "all", "-", "Service,A", " Service"}
Endpoints == {"/service/demo", "/", "/a/b/c", "/service/demo2", "/with space", "relative", "/s*", "/@a", "/a:b", "/'q'"}
Outs == {"", "/tmp/my-service.ts", "../client/src/a.ts", "./a b/c.ts", "~/x.ts", "C:\\x.ts", "out #1.ts", "0x10"}
Modules == {"", "My.Service", "Sample.Module", "true", "2020-01-01"}
Idents == {"ex.com/app.User", "ex.com/app.Kind", "time.Time", "a.B"}
Mods == {"", "ex.com/app", "github.com/foo/Bar/v2", "app"}
Dirs == {<<"w">>, <<"w", "conf">>, <<"w", "conf", "deep.d">>, <<"w", "a b">>, <<"w", "app">>}
Rels == {<<".">>, <<"..">>, <<"..", "app">>, <<"app">>, <<".", "app", "..", "app">>, <<"", "app">>, <<"..", "..", "w", "app", "">>, <<"..", "a b">>, <<"none", "x">>, <<".hidden">>, <<"..conf">>, <<"", ".", "">>}
Abss == {<<"w", "app">>, <<"w", "conf", "..", "app">>, <<"none">>, <<"w">>}
Reqs == {[p |-> "github.com/a/b", v |-> "v1.2.3"], [p |-> "github.com/A/b/v2", v |-> "v2.0.0"], [p |-> "gopkg.in/x.v1", v |-> "v1.0.0"], [p |-> "c.d/e", v |-> "v0.0.0-20200101000000-abcdef123456"], [p |-> "c.d/f", v |-> "v3.0.0+incompatible"]}
Reps == {[p |-> "github.com/a/b", v |-> "", n |-> "../b", nv |-> ""], [p |-> "c.d/e", v |-> "v1.0.0", n |-> "github.com/x/y", nv |-> "v1.1.0"], [p |-> "c.d/f", v |-> "", n |-> "/abs/f", nv |-> ""]}
Faults == {"missing", "directory", "tab", "unclosed", "list", "scalar", "targets-list", "services-list", "gorpc-string", "tsrpc-map", "out-list", "skip-text", "mapping-string", "structs-map", "binary", "bad-utf8", "cut", "module-list", "alias", "key-twice-indent"}

Init ==
  /\ doc = [targets |-> <<>>, mappings |-> <<>>, mod |-> [n |-> "", p |-> <<>>, kind |-> "none"], fault |-> ""]
  /\ loc \in [dir : Dirs, mods : {<<>>}] /\ style = "block" /\ phase = "mod"
  /\ conf \in [t : 0 .. 3, m : 0 .. 3, g : 0 .. 3]
Mod ==
  /\ phase = "mod" /\ phase' = "targets"
  /\ \E n \in Mods, k \in {"none", "rel", "abs"} : \E p \in (CASE k = "none" -> {<<>>} [] k = "rel" -> {x \in Rels : Len(loc.dir) > 1 \/ Len(x) < 2 \/ SubSeq(x, 1, 2) # <<"..", "..">>} [] OTHER -> Abss) :
       doc' = [doc EXCEPT !.mod = [n |-> n, p |-> p, kind |-> k]]
  /\ UNCHANGED <<loc, style, conf>>
Last(s) == s[Len(s)]
Target ==
  /\ phase = "targets" /\ Len(doc.targets) < conf.t /\ phase' = "services"
  /\ \E n \in {x \in Names : \A t \in Range(doc.targets) : t.n # x}, p \in Packages, o \in Outs, m \in Modules, s \in BOOLEAN :
       doc' = [doc EXCEPT !.targets = Append(@, [n |-> n, package |-> p, services |-> <<>>, module |-> m, out |-> o, gorpc |-> <<>>, tsrpc |-> <<>>, skip |-> s])]
  /\ UNCHANGED <<loc, style, conf>>
Service ==
  /\ phase = "services" /\ Len(Last(doc.targets).services) < 3
  /\ \E ep \in {x \in Endpoints : \A s \in Range(Last(doc.targets).services) : s.ep # x}, n \in Services :
       doc' = [doc EXCEPT !.targets[Len(doc.targets)].services = Append(@, [ep |-> ep, n |-> n])]
  /\ UNCHANGED <<loc, style, conf, phase>>
Select ==
  /\ phase = "services"
  /\ LET n == Len(doc.targets)
     IN \/ phase' = "targets" /\ doc' = doc
        \/ /\ phase' = phase
           /\ \E s \in Selected : \/ Len(doc.targets[n].gorpc) < 3 /\ doc' = [doc EXCEPT !.targets[n].gorpc = Append(@, s)]
                                  \/ Len(doc.targets[n].tsrpc) < 3 /\ doc' = [doc EXCEPT !.targets[n].tsrpc = Append(@, s)]
  /\ UNCHANGED <<loc, style, conf>>
Mapping ==
  /\ phase = "mappings" /\ Len(doc.mappings) < conf.m /\ phase' = "lists"
  /\ \E p \in {x \in Packages : \A m \in Range(doc.mappings) : m.p # x}, o \in Outs, m \in Modules :
       doc' = [doc EXCEPT !.mappings = Append(@, [p |-> p, out |-> o, structs |-> <<>>, scalars |-> <<>>, module |-> m])]
  /\ UNCHANGED <<loc, style, conf>>
Lists ==
  /\ phase = "lists"
  /\ LET n == Len(doc.mappings)
     IN \/ phase' = "mappings" /\ doc' = doc
        \/ /\ phase' = phase
           /\ \E s \in Idents : \/ Len(doc.mappings[n].structs) < 3 /\ doc' = [doc EXCEPT !.mappings[n].structs = Append(@, s)]
                                \/ Len(doc.mappings[n].scalars) < 3 /\ doc' = [doc EXCEPT !.mappings[n].scalars = Append(@, s)]
  /\ UNCHANGED <<loc, style, conf>>
GoMod ==
  /\ phase = "gomods" /\ Len(loc.mods) < conf.g /\ phase' = "directives"
  /\ \E d \in {<<"w", "app">>, <<"w", "conf">>, <<"w">>, <<"w", "a b">>, IF doc.mod.kind = "none" THEN <<"w">> ELSE ModuleDir(doc, loc)} :
       /\ \A m \in Range(loc.mods) : m.d # d
       /\ \E i \in 1 .. 10, n \in Mods \ {""} :
            loc' = [loc EXCEPT !.mods = Append(@, [d |-> d, gm |-> [bad |-> CASE i = 1 -> "word" [] i = 2 -> "version" [] i = 3 -> "directory" [] i = 4 -> "unclosed" [] OTHER -> "", n |-> n, reqs |-> <<>>, reps |-> <<>>]])]
  /\ UNCHANGED <<doc, style, conf>>
Directives ==
  /\ phase = "directives"
  /\ LET n == Len(loc.mods)
     IN \/ phase' = "gomods" /\ loc' = loc
        \/ /\ phase' = phase
           /\ \/ \E r \in {x \in Reqs : \A y \in Range(loc.mods[n].gm.reqs) : y # x} : loc' = [loc EXCEPT !.mods[n].gm.reqs = Append(@, r)]
              \/ \E r \in {x \in Reps : \A y \in Range(loc.mods[n].gm.reps) : y # x} : loc' = [loc EXCEPT !.mods[n].gm.reps = Append(@, r)]
  /\ UNCHANGED <<doc, style, conf>>
Style ==
  /\ phase = "style" /\ phase' = "done"
  /\ \E s \in {"block", "flow", "json", "quoted", "anchors", "comments"} : style' = s
  /\ \E f \in Faults, really \in 1 .. 6 : doc' = [doc EXCEPT !.fault = CASE really = 1 -> f [] really = 2 /\ (doc.targets # <<>> \/ doc.mappings # <<>>) -> IF f \in {"missing", "tab", "list", "cut"} THEN "null" ELSE "" [] OTHER -> ""]
  /\ UNCHANGED <<loc, conf>>
NextPhase ==
  /\ CASE phase = "targets" -> Len(doc.targets) = conf.t /\ phase' = "mappings"
       [] phase = "mappings" -> Len(doc.mappings) = conf.m /\ phase' = "gomods"
       [] phase = "gomods" -> Len(loc.mods) = conf.g /\ phase' = "style"
       [] OTHER -> FALSE
  /\ UNCHANGED <<doc, loc, style, conf>>
Finish ==
  /\ phase = "done" /\ phase' = "end"
  /\ PrintT("PROG " \o ToJson([doc |-> doc, loc |-> loc, style |-> style, services |-> Selected]))
  /\ UNCHANGED <<doc, loc, style, conf>>
Next == Mod \/ Target \/ Service \/ Select \/ Mapping \/ Lists \/ GoMod \/ Directives \/ Style \/ NextPhase \/ Finish
==============================================================================
