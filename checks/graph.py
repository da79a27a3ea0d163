"""C17: programs built by TLC (spec/GraphCases.tla); the declarations and references of the generated TypeScript and
the outcome of the run are judged by spec/Gen.tla."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import gp, prog, rt, work
from gp import MOD, prim, ref, ptr, slc, mp, anon, fld, struct, defd, scalar
from work import SEED, THOROUGH

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"


def simulate(d, num, env, seed, depth=60, module="GraphCases", tag="PROG"):
    """behaviours of a case specification, each prints the program it ended in"""
    work.jdump(d + "/env.json", env)
    r = work.tlc(module, "INIT Init\nNEXT Next\n", d, workers=1, timeout=300,
                 extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    out = [json.loads(json.loads(l)[len(tag) + 1:]) for l in r.out.splitlines() if l.startswith('"%s ' % tag)]
    if r.rc != 0 or len(out) < num * 0.9:
        raise work.CheckError("simulation of %s gave %d of %d programs:\n%s" % (module, len(out), num, r.out[-3000:]))
    return out, r


def enumerate_(d, env, module="GraphCases", tag="PROG"):
    work.jdump(d + "/env.json", env)
    r = work.tlc_ok(module, "INIT Init\nNEXT Next\n", d)
    return sorted((json.loads(json.loads(l)[len(tag) + 1:]) for l in r.out.splitlines() if l.startswith('"%s ' % tag)), key=str), r


def wrap(path, t):
    return dict(dir=lambda: t, ptr=lambda: ptr(t), slice=lambda: slc(t), map=lambda: mp(prim("string"), t), key=lambda: mp(t, prim("int")),
                anon=lambda: anon([fld("V", t)]), anonp=lambda: ptr(anon([fld("V", ptr(t), "v", omit=True)])), slsl=lambda: slc(slc(t)), mapsl=lambda: mp(prim("int"), slc(t)),
                skey=lambda: slc(mp(t, prim("int"))), mkey=lambda: mp(prim("string"), mp(t, prim("string"))), mapanon=lambda: mp(prim("string"), anon([fld("V", t)])),
                anonsl=lambda: slc(anon([fld("V", slc(t)), fld("W", prim("bool"))])), deep=lambda: slc(mp(prim("string"), slc(ptr(t)))),
                slptr=lambda: slc(ptr(t)), anonkey=lambda: slc(anon([fld("V", mp(t, prim("bool")))])),
                anoninl=lambda: anon([fld(t["n"], t, inline=True), fld("Z", prim("int"))]))[path]()


# two packages have the same name, and one lies below another
PLACE = dict(s1="s1", s2="s2", d1="d1", d2="sub/d1", d3="d1/d3")


def at_(p):
    return MOD + "/" + PLACE.get(p, p)


class Prog:
    """adds the types, references, roots and faults of built programs to one program"""
    def __init__(self, conf):
        self.P = dict(decls=[], services=[], targets=[], mappings=[])
        outs = conf["outs"]
        for i, s in enumerate(("s1", "s2")):
            self.P["targets"].append(dict(n=("b1", "a2")[i], p=MOD + "/" + s, out="ts/%s-client.ts" % s if outs[i] else None))
        self.maps = {p: dict(p=at_(p), out="ts/%s.ts" % p if p != "d2" else ("ts/v1.ts/d2.types.ts" if conf["n"] % 2 else "ts/sub/d2/index.ts"), structs=[], scalars=[]) for p in ("s1", "s2", "d1", "d2", "d3")}
        self.svc = {s: dict(n="Svc" + s.upper(), p=MOD + "/" + s, kind="iface", ep="/" + s, methods=[]) for s in ("s1", "s2")}
        self.listed, self.blocked = [], []
        self.n = 0
        # packages in the configuration that are not used but named like others
        for i, q in enumerate(([], ["d1"], ["gx/d1", "s1"], ["example.com/gx-d1", "example.com/gx-d2"])[(conf["n"] + conf["e"]) % 4]):
            self.maps["decoy%d" % i] = dict(p=q, out="ts/decoy%d.ts" % i)

    def method(self, s, t, pos):
        self.n += 1
        st = prim("string")
        m = dict(n="M%d" % self.n, args=[dict(n="a", t=t)] if pos == "arg" else [], rets=dict(arg=[], ret=[dict(n="", t=t)], ret2=[dict(n="x", t=st), dict(n="y", t=t)])[pos])
        self.svc[s]["methods"].append(m)

    def add(self, g, k):
        names, conf = {}, g["conf"]
        id_ = lambda j: ref(at_(g["types"][j - 1]["pkg"]), names[j])
        for j, t in enumerate(g["types"], 1):
            # some names do not begin with an ASCII letter
            names[j] = "%s%s%dX%d" % ("\u00dc" if (k + j + conf["n"]) % 4 == 0 else "", t["kind"].capitalize(), k, j)
        edges = {}
        for e in g["edges"]:
            edges.setdefault(e["i"], []).append(e)
        for j, t in enumerate(g["types"], 1):
            p, n, kind, es = at_(t["pkg"]), names[j], t["kind"], edges.get(j, [])
            if kind == "struct":
                fs, seen = [fld("Id", prim("string"), "id"), fld("priv", prim("int"))], set()
                for i, e in enumerate(es):
                    r = id_(e["j"])
                    if e["path"] in ("inl", "pinl", "emb"):
                        if r["n"] in seen:
                            continue
                        seen.add(r["n"])
                        emb = e["path"] == "emb"
                        fs.append(fld(r["n"], ptr(r) if e["path"] == "pinl" else r, "e%d" % i if emb else None, inline=not emb, emb=emb))
                    else:
                        fs.append(fld("F%d" % i, wrap(e["path"], r), "f%d" % i if i % 2 else None, omit=i % 3 == 0))
                self.P["decls"].append(struct(p, n, fs, t["f"]))
            elif kind in ("union", "cunion"):
                fs, seen = [], set()
                for i, e in enumerate(es):
                    r = id_(e["j"])
                    fs.append(fld("F%d" % i, ptr(r), "f%d" % i, omit=True, union=True))
                if not fs:
                    fs = [fld("Id", prim("string"))]
                self.P["decls"].append(struct(p, n, fs, t["f"]))
            elif kind in ("slice", "map"):
                el = wrap(es[0]["path"], id_(es[0]["j"])) if es else prim("string")
                self.P["decls"].append(defd(p, n, slc(el) if kind == "slice" else mp(prim("string"), el), t["f"]))
            elif kind == "enum":
                self.P["decls"].append(scalar(p, n, "string", [(n + "One", '"one"', "str", "one", "c"), (n + "Two", '"two"', "str", "two", t["f"])], t["f"]))
            else:
                self.P["decls"].append(scalar(p, n, dict(str="string", num="float64", iface="interface{ X() }")[kind], f=t["f"]))
        for r in g["roots"]:
            self.method(r["s"], wrap(r["path"], id_(r["j"])), r["pos"])
        for j in g["listed"]:
            t = g["types"][j - 1]
            i = id_(j)["id"]
            self.maps[t["pkg"]]["structs" if t["kind"] in ("struct", "union", "cunion", "slice", "map") else "scalars"].append(i)
            self.listed.append(i)
        f, at = conf["fault"], conf["at"]
        if f == "unmapped":
            lost = self.maps.pop(("s1", "d1", "d2", "d3")[at], None) or dict(structs=[], scalars=[])
            self.listed = [i for i in self.listed if i not in lost["structs"] + lost["scalars"]]
        elif f == "blocked":
            q = ("s1", "d1", "d2", "d3")[at]
            self.maps[q]["out"] = "ts/file/" + q + ".ts"
            self.blocked.append(at_(q))
        elif f in ("nostruct", "noscalar"):
            i = at_("d%d" % (at % 3 + 1)) + ".NoSuch"
            self.maps["d%d" % (at % 3 + 1)]["structs" if f == "nostruct" else "scalars"].append(i)
            self.listed.append(i)
        elif f in ("dangling", "nopackage"):
            bad = ref(MOD + ("/d1" if f == "dangling" else "/d9"), "Undefined")
            self.P["decls"].append(struct(MOD + "/d1", "Holder", [fld("F", (bad, ptr(bad), slc(bad), mp(prim("string"), bad))[at])]))
            self.method(("s1", "s2")[at % 2], ref(MOD + "/d1", "Holder"), "ret")

    def done(self):
        P = self.P
        P["services"] = list(self.svc.values())
        P["mappings"] = list(self.maps.values())
        for s in ("s1", "s2", "d1", "d2", "d3"):
            P["decls"].append(dict(p=at_(s), n="unused", id="-", f="z", k="raw", text="type unused struct{}"))
        return P


def spec_program(P, listed, blocked):
    D = gp.go_decls(P)
    pkg = {dl["id"]: dl["p"] for dl in P["decls"] if dl["id"] != "-"}
    def walk(t):
        if t["k"] == "ref":
            pkg.setdefault(t["id"], t["p"])
        for k in ("e", "key"):
            if k in t:
                walk(t[k])
        for f in t.get("fields", ()):
            walk(f["t"])
    for dl in P["decls"]:
        for f in dl.get("fields", ()):
            walk(f["t"])
        if "t" in dl:
            walk(dl["t"])
    for i in listed:
        pkg.setdefault(i, i.rsplit(".", 1)[0])
    ts = []
    for t in P["targets"]:
        ts.append(dict(out=bool(t["out"]), types=[x["t"] for s in P["services"] if s["p"] == t["p"] for m in s["methods"] for x in m["args"] + m["rets"]]))
    return dict(D=D, pkg=pkg, targets=ts, mapped=[m["p"] for m in P["mappings"]], listed=listed, blocked=blocked)


def refs_of(x, out):
    if isinstance(x, list):
        for y in x:
            refs_of(y, out)
    elif isinstance(x, dict):
        if x.get("k") == "ref":
            out.add(x["id"])
        for y in x.values():
            refs_of(y, out)
    return out


def spec_files(P, files):
    files = gp.resolve(files, P)
    pk = {os.path.normpath(m["out"]): m["p"] for m in P["mappings"]}
    out = []
    for f in files:
        own = pk.get(f["file"], "client " + f["file"])
        out.append(dict(pkg=own, file=f["file"], decls=[dict(id=own + "." + dl["n"], k=dl["k"]) for dl in f["decls"]], refs=sorted(refs_of(f["decls"], set())),
                        imports=[dict(alias=i["alias"], exists=i["exists"]) for i in f["imports"]], errors=len(f["errors"])))
    return out


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    if replay:
        groups = replay["groups"]
    else:
        one, r = simulate(base + "/gen1", 900 if THOROUGH else 240, dict(n=7, e=10, faults="some"), SEED)
        ctx.tlc(r)
        many, r = simulate(base + "/gen2", 1200 if THOROUGH else 300, dict(n=9, e=14, faults="none"), SEED + 1)
        ctx.tlc(r)
        few, r = simulate(base + "/gen3", 900 if THOROUGH else 240, dict(n=2, e=2, faults="some"), SEED + 2)
        ctx.tlc(r)
        lone, r = simulate(base + "/gen4", 600 if THOROUGH else 120, dict(n=1, e=0, faults="unmapped"), SEED + 3)
        ctx.tlc(r)
        # types that are many references apart
        chains, r = simulate(base + "/gen5", 24 if THOROUGH else 8, dict(n=60, e=59, faults="chain"), SEED + 4, depth=200)
        ctx.tlc(r)
        # every kind of reference, the only one to its type: together, and some alone
        pairs, r = enumerate_(base + "/gen6", dict(n=2, e=1, faults="pair"))
        ctx.tlc(r)
        rnd = random.Random("%d/graph" % SEED)
        rnd.shuffle(pairs)
        groups = [pairs[i:i + 40] for i in range(0, len(pairs), 40)] + [[g] for g in pairs[:600 if THOROUGH else 100]]
        groups += [[g] for g in one + few + lone + chains] + [many[i:i + 30] for i in range(0, len(many), 30)]

    def run(i):
        d = "%s/p%d" % (base, i)
        b = Prog(groups[i][0]["conf"])
        for k, g in enumerate(groups[i]):
            b.add(g, k)
        P = b.done()
        gp.render(P, d, impl=False)
        gp.write_conf(P, d)
        if b.blocked:
            work.write(d + "/ts/file", "a file")
        p = prog.generate(cli, d)
        return d, P, (b.listed, b.blocked), p

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(run, range(len(groups))))
    traces, progs, outs = [], [], []
    good = [i for i, r in enumerate(runs) if r[3].returncode == 0]
    parsed = dict(zip(good, gp.parse_ts([(runs[i][0], gp.ts_files(runs[i][1])) for i in good], base)))
    for i, (d, P, listed, p) in enumerate(runs):
        progs.append(spec_program(P, *listed))
        ev = dict(prog=i + 1)
        outs.append(p.stdout)
        if p.returncode in (0, 1, 2, 3, 4, 5, 6) and "panic:" not in p.stdout and "goroutine " not in p.stdout:
            traces.append(dict(ev, ev=[dict(e="run", ok=p.returncode == 0)]))
        else:
            traces.append(dict(ev, ev=[dict(e="crash")]))
        if p.returncode == 0:
            F = spec_files(P, parsed[i])
            traces.append(dict(ev, ev=[dict(e="types", files=F)]))
            traces += [dict(ev, ev=[dict(e="names", files=F, i=j + 1)]) for j in range(len(F))]
    # the specification only compares names
    plain = json.loads(json.dumps([traces, progs], ensure_ascii=False).replace("\u00dc", "@U"))
    verdict, st, tr = rt.judge(base, plain[0], [], module="TraceGen", cfg=CFG, env=dict(programs=plain[1]))
    ctx.cover(states=st, transitions=tr, traces=len(traces), programs=len(groups), failing_runs=sum(1 for r in runs if r[3].returncode))
    ctx.sample(traces[-1]["ev"])
    for t, v in zip(traces, verdict):
        if v is None:
            continue
        i, ev = t["prog"] - 1, t["ev"][0]
        what = dict(run=lambda: "the run %s although it has to %s" % (("succeeds", "fail") if ev["ok"] else ("fails", "succeed")), crash=lambda: "the run crashes",
                    types=lambda: "not every needed type is declared exactly once in the file of its package",
                    names=lambda: "a name used in %s is neither declared nor imported" % ev["files"][ev["i"] - 1]["file"])[ev["e"]]()
        ctx.violation("program %d: %s: %s" % (i, what, outs[i][-600:].replace("\n", " | ")),
                      dict(sig=None, groups=[groups[i]], event=ev["e"], output=outs[i][-3000:], files=ev.get("files")))
