"""C24: constants of packages built by TLC (spec/EnumCases.tla); the generated enums are judged by spec/Enum.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
import gp, graph, prog, rt, work
from gp import MOD, prim, ref, ptr, slc, mp, anon, fld, struct, scalar, defd
from work import SEED, THOROUGH

CFG = graph.CFG
KIND = dict(string="string", bool="boolean")


def const_name(types, s, nm, seen):
    """the Go name of a constant; seen: the names the package has"""
    own = types[s["t"] - 1]["n"] if s["t"] else ""
    x, f = nm["suffix"] + nm["id"], nm["form"]
    low = own[:1].lower() + own[1:]
    if f == "blank":
        return "_"
    bare = dict(bare=nm["suffix"], ownbare=own + nm["suffix"], lowbare=low + nm["suffix"]).get(f)
    if bare and bare not in seen:
        n = bare
    else:
        n = dict(own=own + x, other=types[nm["o"] - 1]["n"] + x, none=x, lower=low + x, twice=own + x + own, snake=own + "_" + nm["suffix"] + "_v" + nm["id"],
                 upsnake=own.upper() + "_" + nm["suffix"].upper() + "_" + nm["id"], bare=x, ownbare=own + x, lowbare=low + x)[f]
    seen.add(n)
    return n


def program(c):
    """a case as program, packages for the specification and the names of reachable types"""
    types, P = c["types"], dict(decls=[], services=[], targets=[dict(n="t", p=MOD + "/s1", out="ts/s1-client.ts")], mappings=[])
    lists = {p: [] for p in ("s1", "d1", "d2")}
    pk = {p: dict(types=dict(zz="string"), groups=[]) for p in lists}
    fields, methods, reach = {p: [] for p in lists}, [], []
    for i, t in enumerate(types):
        p, n = MOD + "/" + t["pkg"], t["n"]
        base = types[t["of"] - 1] if t["of"] else t
        pk[t["pkg"]]["types"][n] = KIND.get(base["base"], "number")
        P["decls"].append(dict(p=p, n=n, id=p + "." + n, f=t["f"], k="raw", text="type %s %s" % (n, base["n"] if t["of"] else t["base"])))
        r, u = ref(p, n), c["uses"][i]
        if u != "none":
            reach.append((t["pkg"], n))
        if u == "listed":
            lists[t["pkg"]].append(r["id"])
        elif u in ("arg", "ret"):
            methods.append(dict(n="M%d" % i, args=[dict(n="a", t=r)] if u == "arg" else [], rets=[dict(n="", t=r)] if u == "ret" else []))
        elif u != "none":
            w = dict(field=lambda: r, ptr=lambda: ptr(r), slice=lambda: slc(r), key=lambda: mp(r, prim("int")), mapval=lambda: mp(prim("string"), r), anon=lambda: anon([fld("V", r)]))[u]()
            fields[t["pkg"]].append(fld("F%d" % i, w))
    seen = {p: {t["n"] for t in types} for p in lists}
    for gi, g in enumerate(c["groups"]):
        specs, lines = [], []
        for s in g["specs"]:
            names = [const_name(types, s, nm, seen[g["pkg"]]) for nm in s["names"]]
            t = types[s["t"] - 1] if s["t"] else None
            ty = dict(typed=lambda: t["n"], foreign=lambda: "@{%s/%s}.%s" % (MOD, t["pkg"], t["n"]), again=lambda: "", untyped=lambda: "", string=lambda: "string", int=lambda: "int")[s["shape"]]()
            vals = [dict(j=l["j"], v=l["v"]) for l in s["lits"]]
            specs.append(dict(type=ty if s["shape"] != "foreign" else t["n"], foreign=s["shape"] == "foreign", names=names, vals=vals))
            lines.append("%s %s%s" % (", ".join(names), ty, " = " + ", ".join(l["src"] for l in s["lits"]) if s["lits"] else ""))
        pk[g["pkg"]]["groups"].append(dict(test=g["f"] == "z_test", local=g["f"] == "func", specs=specs))
        text = "const (\n\t%s\n)" % "\n\t".join(lines) if g["paren"] else "const " + lines[0]
        if g["f"] == "func":
            text = "func f%d() {\n%s\n}" % (gi, text)
        P["decls"].append(dict(p=MOD + "/" + g["pkg"], n="-", id="-", f="a" if g["f"] == "func" else g["f"], k="raw", text=text))
    for p in lists:
        P["decls"].append(struct(MOD + "/" + p, "Holder", [fld("Id", prim("string"))] + fields[p], "h"))
        P["mappings"].append(dict(p=MOD + "/" + p, out="ts/%s.ts" % p, scalars=lists[p]))
        methods.append(dict(n="Use" + p.upper(), args=[], rets=[dict(n="", t=ref(MOD + "/" + p, "Holder"))]))
    P["services"].append(dict(n="Svc", p=MOD + "/s1", kind="iface", ep="/s1", methods=methods))
    return P, pk, reach


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    if replay:
        cs = replay["cases"]
    else:
        cs, r = graph.simulate(base + "/gen", 4000 if THOROUGH else 1200, dict(g=12 if THOROUGH else 7, many=20 if THOROUGH else 11), SEED, depth=600, module="EnumCases")
        ctx.tlc(r)
    progs = [program(c) for c in cs]

    def run(i):
        d = "%s/p%d" % (base, i)
        gp.render(progs[i][0], d, impl=False)
        gp.write_conf(progs[i][0], d)
        return d, prog.generate(cli, d)

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(run, range(len(cs))))
    parsed = gp.parse_ts([(d, gp.ts_files(progs[i][0])) for i, (d, p) in enumerate(runs)], base)
    traces, packages = [], []
    for i, (d, p) in enumerate(runs):
        P, pk, reach = progs[i]
        if p.returncode != 0:
            traces.append(dict(ev=[dict(e="failed", out=p.stdout[-800:])], prog=i, what="the run fails: " + p.stdout[-300:]))
            continue
        T = gp.ts_decls(parsed[i], P)
        bad = [x for f in parsed[i] for x in f["errors"]]
        if bad:
            traces.append(dict(ev=[dict(e="syntax", errors=bad)], prog=i, what="the file is no TypeScript: " + bad[0]))
        at = {}
        for q in pk:
            packages.append(pk[q])
            at[q] = len(packages)
        for q, n in reach:
            ds = []
            for dl in T.get(MOD + "/" + q + "." + n, []):
                e = dict(k=dl["k"])
                if dl["k"] == "enum":
                    e["members"] = [dict(n=m["n"], v=dict(j=m["v"]["j"], v=json.dumps(m["v"]["v"]) if m["v"]["j"] == "str" else m["v"]["v"])) for m in dl["members"]]
                elif dl["k"] == "alias":
                    e["t"] = dict(k=dl["t"]["k"], n=dl["t"].get("n", "-"))
                ds.append(e)
            traces.append(dict(ev=[dict(e="type", pkg=at[q], t=n, ds=ds)], prog=i, what="%s.%s is not declared with exactly its constants: %s" % (q, n, json.dumps(ds)[:300])))
    verdict, st, tr = rt.judge(base, [dict(ev=t["ev"]) for t in traces], [], module="TraceEnum", cfg=CFG, env=dict(packages=packages))
    ctx.cover(states=st, transitions=tr, traces=len(traces), programs=len(cs))
    ctx.sample(traces[-1]["ev"])
    for t, v in zip(traces, verdict):
        if v is not None:
            ctx.violation("program %d: %s" % (t["prog"], t["what"]), dict(sig=None, cases=[cs[t["prog"]]], event=t["ev"][0]))
