"""C19, C20: service packages built by TLC (spec/SvcCases.tla); the generated Go code, what calls through it do, and
the TypeScript clients run in node are judged by spec/Service.tla."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import graph, prog, rt, svcgen, work
from svcgen import MOD, U, ident
from work import SEED, THOROUGH, write, run, jdump, jload

CFG = graph.CFG


def _m(n, lc=None, base=False):
    return dict(n=dict(n=n, ex=True, lc=lc or n[:1].lower() + n[1:]), f="a", recv="ptr", sess=False, base=base, args=[dict(n="a", t=dict(w=[], l="string"))],
                rets=[dict(n="", t=dict(w=[], l="int"))], **{"in": True})


def _p(known, *svcs):
    return dict(known=known, target=dict(tsrpc=any(s[2] for s in svcs), skip=False, out=True, junk="", style="plain", pkg="svc"),
                svcs=[dict(n=n, kind="iface", f="a", ep="/ep%d" % i, ts=ts, go=g, group=False, methods=ms) for i, (n, ms, ts, g) in enumerate(svcs)])


# programs that show the recorded findings
KNOWN = dict(
    C20=[_p("gorpc-start-stop", ("Service", [_m("Start"), _m("Get")], False, True)),
         _p("http-client-fields", ("Service", [_m("Client"), _m("Get")], True, False)),
         _p("gorpc-same-message", ("A", [_m("BC"), _m("D")], False, True), ("AB", [_m("C"), _m("E")], False, True)),
         _p("embedded-interface", ("Service", [_m("Get"), _m("Put", base=True)], True, True))],
    C19=[_p("transport-method", ("Service", [_m("Transport"), _m("Get")], True, False)),
         _p("embedded-interface", ("Service", [_m("Get"), _m("Put", base=True)], True, False))])


def ascii_(x):
    t = json.dumps(x, ensure_ascii=False)
    for a, u in U.items():
        t = t.replace(u, a)
    return json.loads(t)


def generate(pid, ctx, replay, num):
    """-> (module directory, cases, per program the finished run of the generator)"""
    base = work.scratch()
    cli = work.build_cli(base)
    if replay:
        cs = replay["cases"]
    else:
        cs, r = graph.simulate(base + "/gen", num, {}, SEED, depth=150, module="SvcCases")
        ctx.tlc(r)
        cs += KNOWN[pid]
    d = base + "/m"
    work.new_module(d, MOD, svcgen.EXTRA)
    rt.copy_rt(d, "h")
    svcgen.deps(d)

    def one(i):
        svcgen.render(cs[i], i, d)
        return prog.generate(cli, d, conf="p%d.yml" % i)

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(one, range(len(cs))))
    return base, d, cs, runs


def finish(ctx, base, cs, traces):
    verdict, st, tr = rt.judge(base, [dict(ev=t["ev"]) for t in traces], [], module="TraceSvc", cfg=CFG, env=dict(progs=cs))
    ctx.cover(states=st, transitions=tr, traces=len(traces), programs=len(cs), events=sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[-1]["ev"][:8])
    for t, v in zip(traces, verdict):
        if v is not None:
            ev = t["ev"][v - 1]
            ctx.violation("program %d: %s" % (t["prog"], json.dumps(ev)[:900]), dict(sig=cs[t["prog"]].get("known"), cases=[cs[t["prog"]]], event=ev))


def go(ctx, replay):
    base, d, cs, runs = generate("C20", ctx, replay, 2500 if THOROUGH else 600)
    traces = []
    rt.copy_rt(d, "cmd/api", "cmd/svccalls")
    paths = ["%s/p%d/%s" % (MOD, i, c["target"]["pkg"]) for i, c in enumerate(cs)]
    list_, ok = [], []
    for i, (c, r) in enumerate(zip(cs, runs)):
        if r.returncode != 0:
            traces.append(dict(prog=i, ev=[dict(e="failed", out=r.stdout[-800:])]))
        else:
            list_.append(dict(pkg=paths[i], services=[ident(s["n"]) for s in c["svcs"]]))
            ok.append(i)
    # the registry names what has to be there: where it is missing, that is told by the declarations
    jdump(d + "/list.json", list_)
    work.go_build(d, "./cmd/api", d + "/api.bin")
    run([d + "/api.bin", "list.json", "api.json"], cwd=d, check=True, timeout=600)
    called = []
    for i, o in zip(ok, ascii_(jload(d + "/api.json"))):
        if o["errors"]:
            traces.append(dict(prog=i, ev=[dict(e="compile", errors=o["errors"][:5])]))
            continue
        for x in o["objects"]:
            if x["kind"] == "goclient":
                x["methods"] = [m for m in x["methods"] if not (m["n"] in ("Start", "Stop") and m["params"] == m["rets"] == [])]
            traces.append(dict(prog=i, ev=[dict(e="object", p=i + 1, s=x["s"], o=x)]))
        if cs[i]["target"]["pkg"] != "main":
            called.append(i)
    if called:
        write(d + "/cmd/svccalls/programs.go", "package main\n\nimport (\n%s)\n\nvar programs = []Program{\n%s}\n" % (
            "".join('\tp%d "%s"\n' % (i, paths[i]) for i in called), "".join("\t{%d, p%d.Services},\n" % (i + 1, i) for i in called)))
        work.go_build(d, "./cmd/svccalls", d + "/svccalls.bin")
        run([d + "/svccalls.bin", "calls.json"], cwd=d, check=True, timeout=600)
        for i, evs in zip(called, ascii_(jload(d + "/calls.json"))):
            for e in evs:
                if e["e"] == "call":   # arguments without a name cannot be seen by a struct's method
                    s = cs[i]["svcs"][e["s"] - 1]
                    m = [m for m in s["methods"] if m["n"]["n"] == e["m"]][0]
                    if s["kind"] == "struct":
                        e["sent"] = [t if svcgen.known(a) else '"?"' for t, a in zip(e["sent"], m["args"])]
                traces.append(dict(prog=i, ev=[e]))
    finish(ctx, base, cs, traces)


def typescript(ctx, replay):
    base, d, cs, runs = generate("C19", ctx, replay, 4000 if THOROUGH else 700)
    traces, list_, at = [], [], []
    for i, (c, r) in enumerate(zip(cs, runs)):
        if r.returncode != 0:
            traces.append(dict(prog=i, ev=[dict(e="failed", out=r.stdout[-800:])]))
            continue
        td = "%s/p%d/ts" % (d, i)
        files = sorted(os.path.join(td, f) for f in os.listdir(td)) if os.path.isdir(td) else []
        client = [f for f in files if f.endswith("/client.ts")]
        list_.append(dict(files=files, client=client[0] if client else ""))
        at.append(i)
    jdump(d + "/tsrun.json", list_)
    run(["node", os.path.join(work.VERIF, "node/tsrun.js"), work.NODE_MODULES + "/typescript", d + "/tsrun.json", d + "/tsout.json"], check=True, timeout=600)
    for i, o in zip(at, ascii_(jload(d + "/tsout.json"))):
        if o["errors"]:
            traces.append(dict(prog=i, ev=[dict(e="typecheck", errors=o["errors"][:5])]))
        by = {c["n"]: c for c in o["classes"]}
        for k, s in enumerate(cs[i]["svcs"]):
            c = by.get(s["n"] + "Client")
            traces.append(dict(prog=i, ev=[dict(e="class", p=i + 1, s=k + 1, c=dict(present=c is not None, endpoint=c["endpoint"] if c else "", functions=c["functions"] if c else []))]))
            for r in c["runs"] if c else ():
                traces.append(dict(prog=i, ev=[dict(r, p=i + 1, s=k + 1)]))
    finish(ctx, base, cs, traces)


def check(pid, ctx, replay):
    dict(C19=typescript, C20=go)[pid](ctx, replay)
