"""C22: modules, go.mod files and packages built by TLC (spec/ResolveCases.tla); which of many look-alike directories
the generator read and wrote is judged by spec/Resolve.tla."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import gp, graph, prog, rt, work
from work import SEED, THOROUGH

CFG = graph.CFG
GENS = ("gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go")


def build(c, d):
    """writes the directories of a world; returns the environment and configuration file of the run"""
    w = c["w"]
    mark = {}
    def marker(x):
        return mark.setdefault(x, "D%d" % len(mark))
    for p, ds in c["dirs"].items():
        for x in ds:
            m = marker(x)
            work.write("%s/%s/%s.go" % (d, x, ("t", "types_gen", "t.pb")[(len(mark) + len(x)) % 3]), "package q\n\ntype T struct {\n\t%s string\n\tE E\n}\n\ntype E string\n\nconst E%s E = \"%s\"\n" % (m, m, m))
    for i, t in enumerate(c["tgts"]):
        mine = [(k, p) for k, p in enumerate(c["pkgs"]) if p["t"] == i + 1 and p["use"] != "listed"]
        for x in c["dirs"][t]:
            body = "package q\n\n" + "".join('import k%d "%s"\n' % (k, p["p"]) for k, p in mine)
            body += "\ntype Svc%d interface {\n\tOwn(o Own%d)\n%s}\n\ntype Own%d struct {\n\t%s string\n%s}\n" % (
                i, i, "".join("\tM%d(t k%d.T) error\n" % (k, k) for k, p in mine if p["use"] == "direct"), i, marker(x),
                "".join("\tF%d []*k%d.T\n" % (k, k) for k, p in mine if p["use"] == "field"))
            work.write("%s/%s/svc%d.go" % (d, x, i), body)
    if w["mod"]["n"]:
        mod = "module %s\n\ngo 1.23\n\n" % w["mod"]["n"]
        mod += "".join("require %s %s\n" % (r["p"], r["v"]) for r in w["reqs"])
        for r in w["reps"]:
            mod += "replace %s => %s\n" % (" ".join(x for x in (r["p"], r["v"]) if x), r["n"] + " " + r["nv"] if r["nv"] else r["n"].replace("@", d))
        work.write("%s/%s/go.mod" % (d, w["mod"]["d"]), mod)
    conf = dict(targets={}, mappings={})
    if w["mod"]["n"]:
        there = "%s/%s" % (d, w["mod"]["d"])
        conf["module"] = dict(name=w["mod"]["n"], path=there if c["conf"]["abs"] else os.path.relpath(there, "%s/%s" % (d, c["conf"]["at"])))
    for i, t in enumerate(c["tgts"]):
        conf["targets"]["t%d" % i] = dict(package=t, out="ts/t%d-client.ts" % i, services={"/s%d" % i: "Svc%d" % i})
        if c["conf"]["go"]:
            conf["targets"]["t%d" % i].update(tsrpc=["Svc%d" % i], gorpc=["Svc%d" % i])
        conf["mappings"][t] = dict(out="ts/t%d.ts" % i)
    for k, p in enumerate(c["pkgs"]):
        conf["mappings"][p["p"]] = dict(out="ts/k%d.ts" % k)
        if p["use"] == "listed":
            conf["mappings"][p["p"]].update(structs=[p["p"] + ".T"], scalars=[p["p"] + ".E"])
    cf = os.path.join(d, c["conf"]["at"], "gotsrpc.yml")
    work.write(cf, json.dumps(conf, indent=1))
    env = work.goenv()
    env["GOPATH"] = "%s/%s" % (d, w["gp"])
    if not c["conf"]["go"]:   # what is written as Go is formatted with help of the real GOROOT
        env["GOROOT"] = "%s/%s" % (d, w["gr"])
    return cf, env, mark


def observe(c, d, wi, p, mark):
    """events of a run"""
    ev = [dict(e="run", w=wi, rc=p.returncode)]
    outs = {t: "ts/t%d.ts" % i for i, t in enumerate(c["tgts"])}
    outs.update({q["p"]: "ts/k%d.ts" % k for k, q in enumerate(c["pkgs"])})
    read = lambda f: open("%s/%s" % (d, f)).read() if os.path.exists("%s/%s" % (d, f)) else None
    if p.returncode != 0:
        # targets are generated in the order of their names, the types once all of them are read
        gone = [f for f in outs.values() if read(f) is not None]
        ev.append(dict(e="partial", w=wi, files=gone + ([] if len(c["tgts"]) > 1 else [f for f in ("ts/t0-client.ts",) if read(f) is not None])))
        return ev
    back = {m: x for x, m in mark.items()}
    for q, f in outs.items():
        text = read(f) or ""
        found = sorted(set(re.findall(r"\bD\d+\b", re.sub(r"//.*|/\*.*?\*/", "", text))))
        own = q in c["tgts"]
        ev.append(dict(e="read", w=wi, p=q, d=back[found[0]] if len(found) == 1 and found[0] in back and (own or re.search("enum E", text)) else "%s of %s" % (found, f)))
    if c["conf"]["go"]:
        for i, t in enumerate(c["tgts"]):
            ds = sorted(os.path.relpath(r, d) for r, _, fs in os.walk(d) for f in fs if f == "gotsrpc_gen.go" and "Svc%dGoTSRPCProxy" % i in open(os.path.join(r, f)).read())
            ev.append(dict(e="wrote", w=wi, p=t, ds=ds))
    return ev


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    if replay:
        cs = replay["cases"]
    else:
        cs, r = graph.simulate(base + "/gen", 4000 if THOROUGH else 800, dict(x=0), SEED, depth=60, module="ResolveCases")
        ctx.tlc(r)

    def run(i):
        d = "%s/w%d" % (base, i)
        os.makedirs(d)
        cf, env, mark = build(cs[i], d)
        p = work.run([cli, os.path.relpath(cf, d)], cwd=d, env=env, timeout=120)
        return p, observe(cs[i], d, i + 1, p, mark)

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(run, range(len(cs))))
    verdict, st, tr = rt.judge(base, [dict(ev=ev) for p, ev in runs], [], module="TraceResolve", cfg=CFG, env=dict(worlds=[dict(w=c["w"], pkgs=c["pkgs"], tgts=c["tgts"]) for c in cs]))
    ctx.cover(states=st, transitions=tr, traces=len(cs), programs=len(cs), failing=sum(p.returncode != 0 for p, _ in runs))
    ctx.sample(runs[-1][1])
    for (p, ev), v, c in zip(runs, verdict, cs):
        if v is not None:
            e = ev[v - 1] if 0 < v <= len(ev) else ev[-1]
            ctx.violation("%s in %s: %s" % (json.dumps(e), json.dumps(dict(c["w"], hidden=len(c["w"]["hidden"]))), p.stdout[-400:] if e["e"] == "run" else ""), dict(sig=None, cases=[c], event=e))
