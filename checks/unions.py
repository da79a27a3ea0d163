"""C13: unions reached in every way from generated services, on the JSON wire, against spec/UnionCodec.tla."""
import random
import prog, rt, work
from work import SEED, THOROUGH, write, jload
from goprog import norm_method, render_service, render_impl, render_reg

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"
MOD = "example.com/gx"
PK = {"One": "s1", "Two": "s1", "Three": "s2"}   # service -> package (two targets)
# two of the packages have the same name
ALIAS = dict({p: MOD + "/" + p for p in ("s1", "s2", "d1")}, d2=MOD + "/sub/d1")
NAME = dict(s1="s1", s2="s2", d1="d1", d2="d1")


class Types:
    """type declarations by package"""
    def __init__(self):
        self.body = {p: "" for p in ALIAS}
        self.unions = {p: 0 for p in ALIAS}

    def add(self, pkg, name, text):
        self.body[pkg] += "type %s %s\n" % (name, text)
        return name


def union(T, kind, pkg):
    """declares a union in a package; -> its name, number of members, members are unions"""
    def st(n, p=None, f="Key"):
        T.add(p or pkg, n, 'struct {\n\tKind string `json:"kind" gotsrpc:"type:\'%s\'"`\n\t%s string `json:"key"`\n\tL []string `json:"l"`\n\tN *int64 `json:"n,omitempty"`\n}' % (n, f))
        return n
    def sc(n):
        T.add(pkg, n, "string")
        T.body[pkg] += 'const %sOne %s = "one"\nconst %sTwo %s = "two"\n' % (n, n, n, n)
        return n
    # unions of several packages have the same name
    T.unions[pkg] += 1
    u, tag = "U%d" % T.unions[pkg], '`json:"%s,omitempty" gotsrpc:"union"`'
    if kind in ("s2", "s5", "s12", "v2", "one"):
        n = dict(s2=2, s5=5, s12=12, v2=2, one=1)[kind]
        ms = [("" if kind in ("v2", "one") else "*") + st("%sM%d" % (u, j)) for j in range(n)]
    elif kind == "p2":
        ms = ["*" + sc("%sM%d" % (u, j)) for j in range(2)]
    elif kind == "nested":
        a, b = st(u + "A"), st(u + "B")
        T.add(pkg, u + "In", "struct {\n\tX *%s %s\n\tY *%s %s\n}" % (a, tag % "x", b, tag % "y"))
        ms = ["*" + st(u + "C"), "*" + u + "In"]
    elif kind == "foreign":
        ms = ["*" + st(u + "A"), "*d2." + st(u + "B" + pkg, "d2")] if pkg != "d2" else ["*" + st(u + "A"), "*" + st(u + "B")]
    T.add(pkg, u, "struct {\n%s}" % "".join("\t%s %s %s\n" % (chr(65 + j), m, tag % chr(97 + j)) for j, m in enumerate(ms)))
    return u, len(ms), kind == "nested"


def build(T, c, i):
    """declares the types of a case; -> type expression in the service's package, path, members, inner, omit"""
    svc = PK[c["svc"]]
    naming = ("field", "ofield", "nslice", "nmap", "umember", "inline")
    edges = c["path"]
    home, chain = c["home"], ["d1", "d2"]
    # package of each named type: the first `home` in the service's package, then d1, the union maybe in d2
    pkgs, k = [], 0
    for e in edges:
        if e in naming:
            pkgs.append(svc if k < home else "d1")
            k += 1
        else:
            pkgs.append(None)
    upkg = svc if k < home else ("d1" if i % 2 else "d2")
    ty, n, inner = union(T, c["union"], upkg)
    typkg, path = upkg, []
    # from the inside out; ty is written relative to package typkg of its innermost name
    expr = lambda at: ("%s" % wrap[0] % (ty if at == typkg else typkg + "." + ty))
    wrap = ["%s"]
    omit = False
    for j in range(len(edges) - 1, -1, -1):
        e, p, nm = edges[j], pkgs[j], "T%dx%d" % (i, j)
        if e == "ptr":
            wrap[0] = "*" + wrap[0]
        elif e == "slice":
            wrap[0] = "[]" + wrap[0]
            path = ["i:1"] + path
        elif e == "map":
            wrap[0] = "map[string]" + wrap[0]
            path = ["k:x"] + path
        elif e == "anon":
            wrap[0] = 'struct {\n\tW string `json:"w"`\n\tV %s `json:"v"`\n}' % wrap[0]
            path = ["f:V"] + path
        else:
            x = expr(p)
            if e in ("field", "ofield"):
                o = e == "ofield"
                omit = omit or o
                T.add(p, nm, 'struct {\n\tPad string `json:"pad"`\n\tV %s `json:"v%s"`\n\tPost []string\n}' % (x, ",omitempty" if o else ""))
                path = ["f:V"] + path
            elif e == "inline":
                T.add(p, nm, 'struct {\n\t%s `json:",inline"`\n\tZ%d string `json:"z%d"`\n}' % (x, j, j))
                path = ["f:" + x.split(".")[-1]] + path
            elif e == "nslice":
                T.add(p, nm, "[]" + x)
                path = ["i:0"] + path
            elif e == "nmap":
                T.add(p, nm, "map[string]" + x)
                path = ["k:y"] + path
            elif e == "umember":
                T.add(p, nm + "M", 'struct {\n\tK%d string `json:"k%d"`\n\tV %s `json:"v"`\n}' % (j, j, x))
                T.add(p, nm + "O", 'struct {\n\tO string `json:"o"`\n}')
                T.add(p, nm, 'struct {\n\tA *%sM `json:"a,omitempty" gotsrpc:"union"`\n\tB *%sO `json:"b,omitempty" gotsrpc:"union"`\n}' % (nm, nm))
                path = ["u:A", "f:V"] + path
            ty, typkg, wrap[0] = nm, p, "%s"
    return expr(svc), path, n, inner, omit


def program(d, picked, outs=3):
    T, cases = Types(), []
    svcs = {s: dict(name=s, kind="iface", ep="/" + s.lower(), methods=[]) for s in PK}
    for i, c in enumerate(picked):
        ty, path, n, inner, omit = build(T, c, i)
        m = norm_method(dict(name="M%d" % i, args=[("a", "string"), ("v", ty)] if c["dir"] == "arg" else [],
                             rets=[("", "string"), ("", ty)] if c["dir"] == "ret" else []))
        svcs[c["svc"]]["methods"].append(m)
        for s in range(n + 1):
            cases.append(dict(method=m["name"], svc=c["svc"], dir=c["dir"], path=path, omit=omit, inner=inner, set=s,
                              edges=c["path"], union=c["union"], home=c["home"]))
    for p in ALIAS:
        write("%s/%s/types.go" % (d, ALIAS[p][len(MOD) + 1:]), prog.gofile(NAME[p], T.body[p], ALIAS))
    for p in ("s1", "s2"):
        ss = [s for n, s in svcs.items() if PK[n] == p]
        write("%s/%s/service.go" % (d, p), prog.gofile(p, "\n".join(render_service(s) for s in ss), ALIAS))
        write("%s/%s/impl.go" % (d, p), prog.gofile(p, "\n".join(render_impl(s) for s in ss), ALIAS))
        reg = render_reg(p, MOD + "/" + p, ss).replace("example.com/fx", MOD)
        body = reg.split(")\n", 1)[1].replace("@@USES@@", "").replace("h.Service", "vh.Service").replace("h.Hook", "vh.Hook").replace("h.Method", "vh.Method")
        body = body.replace("vvh", "vh")
        al = dict(ALIAS, reflect="reflect", tls="crypto/tls")
        write("%s/%s/reg.go" % (d, p), prog.gofile(p, body, al))
    conf = dict(module=dict(name=MOD, path="."), targets={
        "t1": dict(package=MOD + "/s1", out="ts/c1.ts", services={"/one": "One", "/two": "Two"}, tsrpc=["One", "Two"]),
        "t2": dict(package=MOD + "/s2", out="ts/c2.ts", services={"/three": "Three"}, tsrpc=["Three"])},
        mappings={ALIAS[p]: dict(out="ts/%s.ts" % p) for p in ALIAS})
    # a codec knows its unions whether or not TypeScript is generated
    for k, t in enumerate(("t1", "t2")):
        if not outs >> k & 1:
            del conf["targets"][t]["out"]
    if not outs:
        del conf["mappings"]
    write(d + "/gotsrpc.yml", prog.yml(conf))
    return cases


def check(pid, ctx, replay):
    rnd = random.Random("%d/unions" % SEED)
    base = work.scratch()
    cli = work.build_cli(base)
    allc = rt.cases(base, "UnionCases", "deep" if THOROUGH else "flat")
    hands = [dict(c, method="", svc="", dir="", path=[], omit=False, inner=False, edges=[], union="by hand", home=0)
             for c in rt.cases(base, "UnionCases", "hand")]
    ctx.cover(ways=len(allc) + len(hands))
    for rnd_no in range(12 if THOROUGH else 4):
        if replay:
            picked = [replay["way"]] if replay["way"] else []
        else:
            # every path with some union kind, home and direction, and a sample of the rest
            by = {}
            for c in allc:
                by.setdefault(tuple(c["path"]), []).append(c)
            picked = [rnd.choice(v) for v in by.values()]
            picked = rnd.sample(picked, min(len(picked), 500)) + rnd.sample(allc, 250)
        d = "%s/p%d" % (base, rnd_no)
        work.new_module(d, MOD)
        prog.copy_h(d)
        prog.copy_cmd(d, "unions")
        outs = replay.get("outs", 3) if replay else (3, 0, 1, 2)[rnd_no % 4]
        cases = program(d, picked, outs)
        write(d + "/cmd/unions/services.go", 'package main\nimport (\n\t"example.com/gx/h"\n\t"example.com/gx/s1"\n\t"example.com/gx/s2"\n)\n'
              'var services = append(append([]*h.Service{}, s1.Services...), s2.Services...)\n')
        p = prog.generate(cli, d)
        if p.returncode != 0:
            raise work.RealViolation("generation of a program with unions fails:\n" + p.stdout[-2000:])
        binary = work.go_build(d, "./cmd/unions", d + "/unions.bin")
        # every value twice and in any order: what a union's codec did before does not matter
        cases = [dict(c) for c in cases + hands for _ in (1, 2)]
        rnd.shuffle(cases)
        for c in cases:
            c["seed"] = rnd.getrandbits(40)
        rt.drive(binary, d, cases)
        traces = jload(d + "/traces.json")
        verdict, st, tr = rt.judge(d, traces, [], module="TraceUnion", cfg=CFG)
        ctx.cover(states=st, transitions=tr, traces=len(traces), programs=1)
        for t in traces[:2]:
            ctx.sample(t["ev"])
        for c, t, n in zip(cases, traces, verdict):
            if n is not None:
                way = picked[int(c["method"][1:])] if c["method"] else None
                ctx.violation("union %s reached by %s (%s, home %d, service %s) with member %d set: %s" % (
                    c["union"], c.get("hand") or c["edges"], c["dir"], c["home"], c["svc"], c["set"], str(t["ev"])[:500]),
                    dict(sig=None, outs=outs, way=way, case=c, behaviour=t["ev"]))
        if replay:
            break
