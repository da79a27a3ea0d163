"""C16, C21: histories of runs built by TLC (spec/BuildCases.tla), recorded on the real generator, judged by spec/BuildRun.tla."""
import hashlib, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import gp, graph, prog, rt, work
from work import SEED, THOROUGH

CFG = graph.CFG
MOD = gp.MOD
FOCUS = dict(C16=["content", "untouched"], C21=["files", "others", "content"])
# packages of the types a service needs, per version of the sources
USES = [dict(A=["s1", "d1", "d2", "s2"], B=["d1"], C=["s2", "d3", "d1"], E=["d2"], D=["s3/v2"]),
        dict(A=["s1", "d1", "s2"], B=["d1", "d3"], C=["s2", "d3", "d1"], E=[], D=["s3/v2", "d2"]),
        dict(A=[], B=["d1"], C=["d1"], E=["d2"], D=["d3", "d1"])]


def sources(v):
    """the source files of version v (0..)"""
    def pkg(name, imports, body):
        imps = [i for i in imports if re.search(r"(?<![\w.])%s\." % i.split("/")[-1], body)]
        return "package %s\n\n%s%s" % (name, "".join('import "%s"\n' % (MOD + "/" + i if i[0] in "ds" else i) for i in imps), body)
    many = lambda n, k, t: "".join("type %s%d struct {\n\tV %s `json:\"v\"`\n\tNext *%s%d `json:\"next,omitempty\"`\n}\n" % (n, i, t, n, (i + 1) % k) for i in range(k))
    union = lambda n, ms: "type %s struct {\n%s}\n" % (n, "".join("\t%s *%s `json:\"%s,omitempty\" gotsrpc:\"union\"`\n" % (m, m, m.lower()) for m in ms))
    enum = lambda n, k: "type %s string\nconst (\n%s)\n" % (n, "".join("\t%sV%d %s = \"v%d\"\n" % (n, i, n, i) for i in range(k)))
    f = {}
    f["d1/types.go"] = pkg("d1", [], many("Node", 5, "Kind") + enum("Kind", 11 + v) + union("Shape", ["Node0", "Node1", "Node2"]) + "type Top struct {\n\tShape Shape\n\tNodes map[Kind][]Node3\n\tExtra Extra\n}\n")
    f["d1/extra.go"] = pkg("d1", [], "type Extra struct {\n\tA, B string\n\tM map[string]*Mix\n}\n" + union("Mix", ["Node3", "Node4"]) + "const KindMore Kind = \"more\"\ntype Num int64\nconst NumMax Num = -0x10\n")
    f["d2/types.go"] = pkg("d2", [], many("Leaf", 4, "Level") + "type Level uint8\nconst (\n\tLevelLow Level = 1\n\tLevelHigh Level = 0x%d\n)\n" % (10 + v) + union("Either", ["Leaf1", "Leaf2", "Leaf3"]) + "type List []Either\ntype Seldom struct {\n\tLeaf0\n\tX string\n}\n")
    f["d3/types.go"] = pkg("d3", ["d1"], "type Wrap struct {\n\tTop d1.Top\n\tAny any\n}\ntype ByName map[string]Wrap\n" + enum("Color", 9))
    own = "type Own struct {\n\tId string\n\tM Mode\n}\n" + enum("Mode", 3)
    a = [["M1(x d1.Top, o Own) (r d2.List, err error)", "M2(k []d1.Kind) (a d1.Num, b *d1.Shape)", "M3(m map[string]d2.Leaf0)", "Any(x any) (s2.Id, bool)"],
         ["M1(x d1.Top, o Own) (r string, err error)", "M2(k []d1.Kind) (a d1.Num, b *d1.Shape)", "New(o []Own) s2.Id"],
         ["M1(s string) error", "M9() (a, b int)"]][v]
    f["s1/a.go"] = pkg("s1", ["d1", "d2", "s2"], "type A interface {\n%s}\n" % "".join("\t%s\n" % m for m in a) + own)
    b = [[("M1", "k d1.Kind", "d1.Num"), ("M2", "w http.ResponseWriter, r *http.Request, n int", "(string, error)")],
         [("M1", "k d1.Kind", "d1.Num"), ("M3", "w d3.ByName", "(c d3.Color)")], [("M1", "k d1.Kind", "d1.Num"), ("hidden", "x string", "error")]][v]
    f["s1/b.go"] = pkg("s1", [], "type B struct{}\n")
    for i, (n, args, ret) in enumerate(b):
        f["s1/b%d.go" % i] = pkg("s1", ["d1", "d3", "net/http"], "func (b *B) %s(%s) %s { panic(0) }\n" % (n, args, ret))
    c = [["Get(id Id) (d3.Wrap, *Err)", "Put(w []d3.Wrap)"], ["Get(id Id) (d3.Wrap, *Err)"], ["Get(n d1.Node0) error"]][v]
    f["s2/c.go"] = pkg("s2", ["d1", "d3"], "type C interface {\n%s}\n" % "".join("\t%s\n" % m for m in c) + "type Id string\ntype Err struct { Text string }\nfunc (e *Err) Error() string { return e.Text }\n")
    e = [["(l d2.Level) map[string]d2.Seldom"], ["(s string) string"], ["(l d2.Level)"]][v]
    f["s2/e.go"] = pkg("s2", ["d2"], "type E struct{}\n" + "".join("func (e *E) Do%d%s { panic(0) }\n" % (i, m) for i, m in enumerate(e)))
    d = [["M(p Own3) Own3"], ["M(p Own3) d2.Either"], ["M(p d3.Wrap) d3.Color"]][v]
    f["s3/v2/d.go"] = pkg("s3", ["d2", "d3"], "type D interface {\n%s}\ntype Own3 struct { X, Y int }\n" % "".join("\t%s\n" % m for m in d))
    return f


OTHERS = {"s1/custom_gen.go": "package s1\n", "s1/gotsrpc_gen.go.bak": "bak", "s1/gorpc.go": "package s1\n", "s1/sub/gotsrpc_gen.go": "package sub\n", "ts/own.ts": "export const x = 1;\n",
          "s3/gotsrpc_gen.go": "package s3\n", "gotsrpc_gen.go": "package gx\n", "ts/d1.ts.old": "x", "s2/gorpcclient_gen_test.go": "package s2\n", "s1/gotsrpc_gen.ts": "x", "README": "x"}


def config(cfg):
    svc = lambda s: {"/%s" % x.lower(): x for x in sorted(s)}
    targets = {}
    for t in cfg["targets"]:
        c = dict(package=MOD + "/" + t["dir"], services=svc(t["svcs"]))
        for k, n in (("ts", "tsrpc"), ("go", "gorpc")):
            if t[k]:
                c[n] = sorted(t[k])
        if t["out"]:
            c["out"] = t["out"]
        if t["skip"]:
            c["skipTSRPCClient"] = True
        targets[t["n"]] = c
    maps = {}
    for m in cfg["maps"]:
        maps[MOD + "/" + m["pkg"]] = dict(out=m["out"])
        if m["listed"]:
            maps[MOD + "/" + m["pkg"]].update(structs=[MOD + "/d2.Seldom"], scalars=[MOD + "/d2.Level"])
    return dict(module=dict(name=MOD, path="."), targets=targets, mappings=maps)


class Tree:
    def __init__(self, d):
        self.d, self.stamp = d, 10 ** 9
        self.version = None

    def write(self, p, text):
        work.write(self.d + "/" + p, text)

    def set_sources(self, v):
        if v == self.version:
            return
        f = sources(v)
        for p in (sources(self.version) if self.version is not None else {}):
            if p not in f:
                os.remove(self.d + "/" + p)
        for p, t in f.items():
            self.write(p, t)
        self.version = v

    def read(self):
        out = {}
        for root, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(root, f)
                st = os.stat(p)
                out[os.path.relpath(p, self.d)] = dict(h=hashlib.sha256(open(p, "rb").read()).hexdigest()[:20], m="%d/%d/%o" % (st.st_mtime_ns % 10 ** 12, st.st_ino, st.st_mode))
        return out

    def age(self):
        """every file gets a time of its own, so that a rewrite shows"""
        for root, _, fs in os.walk(self.d):
            for f in fs:
                self.stamp += 1
                os.utime(os.path.join(root, f), (self.stamp, self.stamp))

    def damage(self, path, how):
        p = self.d + "/" + path
        if how == "gone":
            if os.path.exists(p):
                os.remove(p)
        elif how == "cut":
            if os.path.exists(p):
                t = open(p).read()
                self.write(path, t[:len(t) * 2 // 3])
        elif how in ("tail", "crlf", "edit", "case"):
            # what an editor or a checkout makes of a file
            if os.path.exists(p):
                t = open(p).read()
                self.write(path, dict(tail=t.rstrip() + "\n\n", crlf=t.replace("\n", "\r\n"), edit=t[:-30] + t[-30:].swapcase(), case=t.upper())[how])
        else:
            self.write(path, "" if how == "empty" else "}{ junk\n")


def history(cli, d, hist):
    t = Tree(d)
    os.makedirs(d)
    for p, text in OTHERS.items():
        t.write(p, text)
    # files of others beside the outputs, named as temporary files and backups often are
    outs = {x["out"] for h in hist for x in h["cfg"]["targets"] + h["cfg"]["maps"] if x.get("out")}
    outs |= {"%s/%s_gen.go" % (x["dir"], g) for h in hist for x in h["cfg"]["targets"] for g in ("gotsrpc", "gotsrpcclient", "gorpc", "gorpcclient")}
    for i, p in enumerate(sorted(outs)):
        b, n = os.path.split(p)
        for q in (p + ".tmp", p + "~", p + ".new", b + "/." + n + ".swp", b + "/." + n, b + "/." + n + ".tmp", b + "/tmp", p + ".lock", os.path.splitext(p)[0] + ".tmp"):
            if q not in outs and (len(q) + i) % 2:
                t.write(q, "not an output: %s" % q)
    evs = []
    for h in hist:
        t.set_sources(h["src"] - 1)
        for x in h["damage"]:
            t.damage(x["path"], x["how"])
        t.write("gotsrpc.yml", json.dumps(config(h["cfg"]), indent=1))
        t.age()
        before = t.read()
        p = prog.generate(cli, d)
        evs.append(dict(e="run", cfg=h["cfg"], src=h["src"], ok=p.returncode == 0, before=before, after=t.read(), out=p.stdout[-1500:]))
    return evs


def refs(base, cli, cases):
    """what the files contain that depend on one key: what a run in an untouched tree makes of it"""
    wanted, keys = [], {}
    for c in cases:
        for h in c["hist"]:
            new = [o for o in h["owned"] if (h["src"], o["key"]) not in keys]
            if new:
                i = len(wanted)
                wanted.append(h)
                for o in h["owned"]:
                    keys.setdefault((h["src"], o["key"]), (i, o["path"]))
    def one(i):
        h = dict(wanted[i], damage=[])
        return history(cli, "%s/ref%d" % (base, i), [h])[0]
    with ThreadPoolExecutor(8) as ex:
        evs = list(ex.map(one, range(len(wanted))))
    out = {}
    # a failing reference run says nothing about contents
    for k, (i, path) in keys.items():
        if evs[i]["ok"] and path in evs[i]["after"]:
            out[k] = evs[i]["after"][path]["h"]
    return out, len(wanted)


def slim(tree):
    return {p: "%s %s" % (x["h"], x["m"]) for p, x in tree.items()}


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    if replay:
        cases, graphs = replay.get("cases", []), replay.get("graphs", [])
    else:
        cases, r = graph.simulate(base + "/gen", 1200 if THOROUGH else 160, dict(uses=USES, n=6), SEED, depth=200, module="BuildCases")
        ctx.tlc(r)
        graphs = []
        if pid == "C16":
            many, r = graph.simulate(base + "/gen2", 2400 if THOROUGH else 400, dict(n=9, e=14, faults="none"), SEED + 7)
            ctx.tlc(r)
            graphs = [many[i:i + 20] for i in range(0, len(many), 20)]
    ref, nref = refs(base, cli, cases)
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda i: history(cli, "%s/h%d" % (base, i), cases[i]["hist"]), range(len(cases))))
    traces, origin = [], []
    for c, evs in zip(cases, recs):
        for ev, h in zip(evs, c["hist"]):
            ev["ref"] = {o["path"]: ref[(h["src"], o["key"])] for o in h["owned"] if (h["src"], o["key"]) in ref}
            ev.pop("out_", None)
        traces.append(dict(ev=evs))
        origin.append(dict(cases=[c]))
    # the same program in several directories, twice in the same
    def repeat(i):
        trees, again = [], None
        for k in range(4 if not THOROUGH else 8):
            d = "%s/g%d_%d" % (base, i, k)
            b = graph.Prog(graphs[i][0]["conf"])
            for j, g in enumerate(graphs[i]):
                b.add(g, j)
            P = b.done()
            gp.render(P, d, impl=False)
            gp.write_conf(P, d)
            p = prog.generate(cli, d)
            t = Tree(d)
            t.age()
            tree = t.read()
            trees.append(dict({q: x["h"] for q, x in tree.items()}, ok=str(p.returncode)))
            if k == 0 and p.returncode == 0:
                prog.generate(cli, d)
                after = t.read()
                outs = [os.path.normpath(o) for o in gp.ts_files(P)]
                again = dict(e="again", before={o: tree[o] for o in outs if o in tree}, after={o: after[o] for o in outs if o in after})
        return [dict(e="same", trees=trees)] + ([again] if again else [])
    with ThreadPoolExecutor(8) as ex:
        for i, evs in enumerate(ex.map(repeat, range(len(graphs)))):
            for ev in evs:
                traces.append(dict(ev=[ev]))
                origin.append(dict(graphs=[graphs[i]]))
    verdict, st, tr = rt.judge(base, traces, [], module="TraceBuild", cfg=CFG, env=dict(uses=USES, focus=FOCUS[pid]))
    ctx.cover(states=st, transitions=tr, traces=len(traces), runs=sum(len(e) for e in recs) + nref + 5 * len(graphs), failing_runs=sum(1 for e in recs for x in e if not x["ok"]))
    ctx.sample([{k: e[k] for k in ("e", "cfg", "src", "ok") if k in e} for e in traces[0]["ev"]])
    for t, v, o in zip(traces, verdict, origin):
        if v is None:
            continue
        ev = t["ev"][v - 1]
        what = explain(ev) if ev["e"] == "run" else "different runs over the same sources and configuration differ: " + differ(ev)
        ctx.violation("event %d: %s" % (v, what), dict(o, sig=None, event=v))


def differ(ev):
    if ev["e"] == "again":
        return ", ".join(p for p in ev["before"] if ev["after"].get(p) != ev["before"][p]) + " is written again"
    return ", ".join(sorted({p for t in ev["trees"] for p in set(t) | set(ev["trees"][0]) if t.get(p) != ev["trees"][0].get(p)}))


def explain(ev):
    """words for a report; the verdict is TLC's"""
    w = ["the run %s" % ("succeeds" if ev["ok"] else "fails: " + ev["out"][-300:].replace("\n", " | "))]
    w += ["%s has other content than in an untouched tree" % p for p, h in ev["ref"].items() if ev["ok"] and p in ev["after"] and ev["after"][p]["h"] != h]
    w += ["%s is missing" % p for p in ev["ref"] if ev["ok"] and p not in ev["after"]]
    w += ["%s is %s" % (p, "new" if p not in ev["before"] else "gone" if p not in ev["after"] else "changed") for p in sorted(set(ev["before"]) | set(ev["after"]))
          if p not in ev["ref"] and ev["before"].get(p) != ev["after"].get(p)]
    w += ["%s is written again although unchanged" % p for p in ev["ref"] if p in ev["before"] and p in ev["after"] and p.endswith(".ts") and ev["before"][p]["h"] == ev["after"][p]["h"] and ev["before"][p] != ev["after"][p]]
    return "; ".join(w)[:900]
