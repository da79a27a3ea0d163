"""C18: Go types built up and exposed in every enumerated way; the generated TypeScript and the JSON the generated
servers send are judged by spec/GoTypes.tla."""
import random
import gp, work
from gp import MOD, prim, IFACE, TIME, ref, ptr, slc, mp, anon, fld, struct, defd, scalar
from work import SEED, THOROUGH, write, jload

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"
S1, S2, D1, D2 = (MOD + "/" + p for p in ("s1", "s2", "d1", "d2"))
OTHER = {S1: (D1, D2), S2: (D2, D1), D1: (D2,), D2: ()}   # packages a package may import
PRIMS = {"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
         "float32", "float64", "byte", "rune"}
ODD = ["F%d", "camelCase%d", "SHOUT_%d", "f-%d", "%df", "f.%d", "class", "föö%d", "a b%d", "delete", "$x%d", "_%d", "-"]
NUMS = ["int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "rune"]
OVERRIDE = [("string", "string|number"), ("int", "number"), ("string", "any"), ("iface", "unknown")]


def leaf_decls(p, f):
    """the declarations named types are taken from, in file f of package p"""
    F = f.upper()
    st, un = "St" + F, "Un" + F
    ds = [
        struct(p, st, [fld("A", prim("int"), "a"), fld("B", ptr(prim("string"))), fld("B2", ptr(prim("string"))), fld("hidden", prim("int")), fld("D", prim("int")), fld("C", slc(TIME), "c", omit=True)], f),
        scalar(p, "EnumS" + F, "string", [("EnumS%sOne" % F, '"one"', "str", "one", f), ("EnumS%sTwo" % F, '"two 2"', "str", "two 2", "c"),
                                          ("EnumS%sEmpty" % F, '""', "str", "", f)], f),
        scalar(p, "EnumN" + F, "int", [("EnumN%sA" % F, "1", "num", "1", f), ("EnumN%sB" % F, "20", "num", "20", "c")], f),
        scalar(p, "Str" + F, "string", f=f), scalar(p, "Num" + F, "float64", f=f), scalar(p, "Bool" + F, "bool", f=f),
        defd(p, "Sts" + F, slc(ref(p, st)), f), defd(p, "Strs" + F, slc(prim("string")), f), defd(p, "Mp" + F, mp(prim("string"), ptr(ref(p, st))), f),
        defd(p, "Blob" + F, slc(prim("byte")), f), scalar(p, "Ifc" + F, "interface{ X() }", f=f),
        # named scalars of every kind, and scalars named twice, whichever comes first
        *[scalar(p, "Num" + F + b, b, f=f) for b in NUMS],
        *[scalar(p, "Re%s%d" % (F, i), go, f=f, base=b) for i, (go, b) in enumerate([("Num" + F, "number"), ("Str" + F, "string"), ("Bool" + F, "bool"), ("Num" + F + "int16", "number"),
                                                                                     ("Re%s0" % F, "number")])],
        struct(p, "UnA" + F, [fld("Kind", prim("string"), "kind", typ="string|number"), fld("X", prim("int"), "x")], f),
        struct(p, "UnB" + F, [fld("Y", slc(prim("string")), "y")], f),
        struct(p, un, [fld("A", ptr(ref(p, "UnA" + F)), "a", omit=True, union=True), fld("B", ptr(ref(p, "UnB" + F)), "b", omit=True, union=True)], f),
    ]
    by, other = {d["n"]: d for d in ds}, "b" if f == "a" else "a"
    for l in AGAIN:
        ds += [gp.again(by[NAMES[l] + F], "Def%s%s" % (NAMES[l], F), f=f), gp.again(by[NAMES[l] + F], "Ali%s%s" % (NAMES[l], F), alias=True, f=other)]
        # and once more, of the definition and of the alias
        ds += [gp.again(d, "Dag%s%s" % (NAMES[l], F), alias=i == 1, f=f) for i, d in enumerate(ds[-2:]) if (i == 1) == (l in ("slice", "struct"))]
    return ds


NAMES = dict(struct="St", enumS="EnumS", enumN="EnumN", str="Str", num="Num", bool_="Bool", slice="Sts", sliceS="Strs", map="Mp", blob="Blob",
             ifaceT="Ifc", union="Un")
AGAIN = ["struct", "str", "bool_", "slice", "sliceS", "map", "blob", "ifaceT", "union"]


class Build:
    def __init__(self, rnd):
        self.rnd, self.n = rnd, 0
        self.P = dict(decls=[], services=[], targets=[dict(n="t1", p=S1, out="ts/s1-client.ts"), dict(n="t2", p=S2, out="ts/other/s2-client.ts")],
                      mappings=[dict(p=S1, out="ts/s1.ts"), dict(p=S2, out="ts/other/s2.ts"), dict(p=D1, out="./ts/deep/er/d1.ts"),
                                dict(p=D2, out="ts/d2.ts"), dict(p="time", out="ts/time.ts")])
        for p in (S1, S2, D1, D2):
            for f in "ab":
                self.P["decls"] += leaf_decls(p, f)
        self.svc = {S1: dict(n="One", p=S1, kind="iface", ep="/one", methods=[]), S2: dict(n="Two", p=S2, kind="struct", ep="/two", methods=[])}
        self.P["services"] = list(self.svc.values())
        self.known = {}    # method -> the recorded finding its replies show
        self.zero = {}     # method -> returns zero values
        self.open = {}     # (package, file) -> fields waiting for a struct
        self.case = {}     # declaration or method -> what it was made for

    def findings(self):
        """values the recorded findings are about"""
        p = S1
        self.P["decls"] += [
            struct(p, "FdBase", [fld("A", prim("int"), "a"), fld("B", prim("string"), "b")]),
            struct(p, "FdEmb", [fld("FdBase", ptr(ref(p, "FdBase")), inline=True), fld("X", prim("int"), "x")]),
            struct(p, "FdUnset", [fld("U", ref(p, "UnA"), "u"), fld("X", prim("int"), "x")]),
            struct(p, "FdConst", [fld("S", ref(p, "EnumSA"), "s", omit=True, union=True), fld("T", ref(p, "EnumSB"), "t", omit=True, union=True)]),
            struct(p, "FdScal", [fld("C", ref(p, "FdConst"), "c"), fld("X", prim("int"), "x")])]
        # a struct embedded without a tag
        self.P["decls"].append(struct(p, "FdBare", [dict(fld("FdBase", ref(p, "FdBase"), inline=True), bare=True), fld("X", prim("int"), "x")]))
        self.known[p + ".FdBare"] = "embedded-without-tag"
        # types defined as types of another package
        far = {d["n"]: d for d in self.P["decls"] if d["p"] == D1}
        for n in ("StA", "StsA", "StrB", "EnumSA"):
            self.P["decls"].append(gp.again(far[n], "FdFar" + n, p=p, f="a", alias=n == "StrB"))
            self.known[p + ".FdFar" + n] = "foreign-definition"
        self.P["decls"].append(struct(p, "FdFar", [fld(n, ref(p, "FdFar" + n)) for n in ("StA", "StsA", "StrB", "EnumSA")]))
        self.known[p + ".FdFar"] = "foreign-definition"
        self.zero = {}
        for n, sig, zero in (("FdBare", "embedded-without-tag", False), ("FdFar", "foreign-definition", False), ("FdEmb", "nil-embedded-pointer", True), ("FdUnset", "unset-union", True), ("FdScal", "union-of-constants", False)):
            m = "Get" + n
            self.svc[p]["methods"].append(dict(n=m, args=[], rets=[dict(n="", t=ref(p, n))]))
            self.known["One." + m] = sig
            self.zero["One." + m] = zero

    def leaf(self, l, home, p, f):
        if l in PRIMS:
            return prim(l)
        if l == "iface":
            return IFACE
        if l == "time":
            return TIME
        p_, F = p, (f if home == "file" else "b" if f == "a" else "a").upper()
        if home == "other" and OTHER[p]:
            p_, F = self.rnd.choice(OTHER[p]), self.rnd.choice("AB")
        n = NAMES[l] + F
        if l in AGAIN and self.rnd.random() < 0.3:
            n = self.rnd.choice(["Def", "Ali", "Dag"]) + n
        elif l == "num" and self.rnd.random() < 0.7:
            n = self.rnd.choice(["Num%s%s" % (F, b) for b in NUMS] + ["Re%s%d" % (F, i) for i in (0, 3, 4)])
        elif l in ("str", "bool_") and self.rnd.random() < 0.2:
            n = "Re%s%d" % (F, 1 if l == "str" else 2)
        return ref(p_, n)

    def type(self, c, p, f):
        t = self.leaf(c["l"], c["home"], p, f)
        for i, k in reversed(list(enumerate(c["cons"]))):
            if k == "ptr":
                t = ptr(t)
            elif k == "slice":
                t = slc(t)
            elif k == "map":
                t = mp(prim("string"), t)
            elif k == "imap":
                t = mp(prim(self.rnd.choice(["int", "uint32", "int64"])), t)
            elif k == "emap":
                t = mp(self.leaf(self.rnd.choice(["enumS", "str"]), self.rnd.choice(["file", "pkg", "other"]), p, f), t)
            else:
                fs = [fld("V", t, self.rnd.choice([None, "v"])), fld("W", prim("int"), "w", omit=True), fld("hid", prim("string"))]
                if t["k"] in ("prim", "slice", "time") and self.rnd.random() < 0.3:   # of a single field
                    fs = fs[:1]
                if self.rnd.random() < 0.3:
                    fs.append(fld("Ign", prim("string"), ignore=True))
                if self.rnd.random() < 0.3:
                    b = self.base(self.rnd.choice((p,) + OTHER[p]))
                    fs.insert(0, fld(b["n"], ptr(b) if self.rnd.random() < 0.3 else b, inline=True))
                t = anon(fs)
        return t

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def add(self, c, place):
        rnd, p = self.rnd, self.rnd.choice((S1, S1, S2, D1))
        f = rnd.choice("ab")
        k = place["p"]
        what = dict(c, place=place, pkg=p, file=f)
        if k in ("arg", "ret"):
            if "anon" in c["cons"]:
                k = "field"
                place = dict(p="field", flag="plain")
            else:
                p = rnd.choice((S1, S2))
                t = self.type(c, p, "a")   # services are in another file than types
                m = dict(n=self.name("M"), args=[], rets=[], sess=rnd.random() < 0.2)
                if k == "arg":
                    m["args"] = [dict(n="a", t=prim("string")), dict(n="v", t=t)]
                else:
                    m["rets"] = [dict(n="", t=t)] if rnd.random() < 0.5 else rnd.choice([
                        [dict(n="first", t=prim("int")), dict(n="second", t=t)], [dict(n="", t=t), dict(n="", t=prim("bool"))]])
                self.svc[p]["methods"].append(m)
                self.case[self.svc[p]["n"] + "." + m["n"]] = what
                return
        t = self.type(c, p, f)
        if k in ("nslice", "nmap"):
            n = self.name("N")
            self.P["decls"].append(defd(p, n, slc(t) if k == "nslice" else mp(prim("string"), t), f))
            self.case[p + "." + n] = what
            self.field(p, f, fld(self.name("F"), ref(p, n)), what)
            return
        fl = place["flag"]
        n = self.name(rnd.choice(["F", "F", "F", "Ä"]))
        i = self.n
        odd = rnd.choice(ODD)
        name = dict(plain=None, tag="f%d" % i, omit=None, tagomit="x%d" % i, odd=odd % i if "%" in odd else odd, oddomit=odd % i if "%" in odd else odd)[fl]
        self.field(p, f, fld(n, t, name, omit=fl in ("omit", "tagomit", "oddomit")), what)

    def field(self, p, f, x, what):
        o = self.open.setdefault((p, f), [])
        if x["name"] in [y["name"] for y, _ in o]:
            self.close(p, f)
            o = self.open.setdefault((p, f), [])
        o.append((x, what))
        if len(o) >= 6:
            self.close(p, f)

    def base(self, q):
        """a struct to be embedded"""
        b = self.name("B")
        self.P["decls"].append(struct(q, b, [fld("E%d" % self.n, prim("string"), "e%d" % self.n), fld("G%d" % self.n, slc(prim("int")), omit=True)], self.rnd.choice("ab")))
        return ref(q, b)

    def close(self, p, f):
        rnd, fs = self.rnd, self.open.pop((p, f), [])
        if not fs:
            return
        n = self.name("H")
        fields = [x for x, _ in fs]
        if rnd.random() < 0.4:
            fields.insert(rnd.randrange(len(fields) + 1), fld("Ignored", self.type(dict(l="struct", home="other", cons=["slice"]), p, f), ignore=True))
        if rnd.random() < 0.3:
            fields.insert(0, fld(rnd.choice(["unexported", "_x", "äunexported", "_Up"]), prim("string"), "seen"))
        if rnd.random() < 0.3:
            l, ty = rnd.choice(OVERRIDE)
            fields.append(fld("Over", IFACE if l == "iface" else prim(l), rnd.choice([None, "over"]), omit=rnd.random() < 0.5, typ=ty))
        r = rnd.random()
        if r < 0.35:   # embedded structs of its own fields, from here or elsewhere
            for _ in range(1 if r < 0.2 else 2):
                b = self.base(rnd.choice((p,) + OTHER[p]))
                fields.insert(rnd.choice([0, len(fields)]), fld(b["n"], ptr(b) if rnd.random() < 0.3 else b, inline=True))
        if rnd.random() < 0.2:   # embedded but with a name in JSON
            b = self.base(rnd.choice((p,) + OTHER[p]))
            fields.append(fld(b["n"], ptr(b) if rnd.random() < 0.3 else b, "emb%d" % self.n, emb=True, omit=rnd.random() < 0.3))
        if len(fields) == 1:   # a struct of one map or pointer is mistaken for nil by the codec library
            fields.append(fld("Pad", prim("int"), "pad"))
        self.P["decls"].append(struct(p, n, fields, f))
        self.case[p + "." + n] = [w for _, w in fs]
        # reached from a service
        q = p if p in self.svc else rnd.choice((S1, S2))
        m = dict(n=self.name("M"), args=[], rets=[dict(n="", t=rnd.choice([lambda x: x, ptr, slc])(ref(p, n)))])
        self.svc[q]["methods"].append(m)
        self.case[self.svc[q]["n"] + "." + m["n"]] = self.case[p + "." + n]

    def done(self):
        for p, f in list(self.open):
            self.close(p, f)
        return self.P


def reach(P):
    """ids of the declared types reachable from the services' signatures"""
    D, seen, todo = {d["id"]: d for d in P["decls"]}, set(), []
    def walk(t):
        if t["k"] == "ref":
            if t["id"] not in seen:
                seen.add(t["id"])
                todo.append(t["id"])
        for k in ("e", "key"):
            if k in t:
                walk(t[k])
        for f in t.get("fields", ()):
            if not f["ignore"] and f["exported"]:
                walk(f["t"])
    for s in P["services"]:
        for m in s["methods"]:
            for x in m["args"] + m["rets"]:
                walk(x["t"])
    while todo:
        d = D[todo.pop()]
        if d["k"] == "def":
            walk(d["t"])
        elif d["k"] == "struct":
            for f in d["fields"]:
                if not f["ignore"] and (f["exported"] or f["inline"]):
                    walk(f["t"])
    return seen


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    work.jdump(base + "/gen/env.json", dict(family="deep" if THOROUGH else "flat"))
    work.tlc_ok("TypeCases", "INIT Init\nNEXT Next\n", base + "/gen")
    c = jload(base + "/gen/cases.json")
    key = lambda x: sorted((k, str(v)) for k, v in x.items())
    types, places = sorted(c["types"], key=key), sorted(c["places"], key=key)
    ctx.cover(type_ways=len(types), places=len(places))
    rnd = random.Random("%d/types" % SEED)
    shallow = [(t, p) for t in types if len(t["cons"]) <= 1 for p in places]
    deep = [(t, p) for t in types if len(t["cons"]) > 1 for p in places]
    rnd.shuffle(shallow)
    rnd.shuffle(deep)
    per = 700
    jobs = shallow + deep[:len(deep) if THOROUGH else 2000]
    parts = [jobs[i:i + per] for i in range(0, len(jobs), per)]
    if replay:
        parts = [[(dict(l=w["l"], home=w["home"], cons=w["cons"]), w["place"]) for w in replay["ways"]]]
    for n, part in enumerate(parts):
        d = "%s/p%d" % (base, n)
        b = Build(random.Random("%d/types/%d" % (SEED, n)))
        if n == 0 and not replay:
            b.findings()
        for t, p in part:
            b.add(t, p)
        one(ctx, b, cli, d, rnd)


def one(ctx, b, cli, d, rnd):
    import prog, rt
    P = b.done()
    gp.module(d)
    prog.copy_cmd(d, "types")
    gp.render(P, d)
    gp.write_conf(P, d)
    write(d + "/cmd/types/services.go", gp.main_services(P))
    p = prog.generate(cli, d)
    if p.returncode != 0:
        raise work.RealViolation("generation fails:\n" + p.stdout[-2000:])
    files = gp.resolve(gp.parse_ts([(d, gp.ts_files(P))], d)[0], P)
    T, D = gp.ts_decls(files, P), gp.go_decls(P)
    traces = [dict(prog=1, ev=[dict(e="decl", id=i)]) for i in sorted(reach(P))]
    for i in sorted(reach(P)):
        if D[i]["k"] == "struct" and not any(f["union"] for f in D[i]["fields"]):
            n = len([f for f in D[i]["fields"] if not f["ignore"] and f["exported"] and not f["inline"]])
            traces += [dict(prog=1, ev=[dict(e="prop", id=i, i=j + 1)]) for j in range(n)]
    fns = {}
    for f in files:
        for dl in f["decls"]:
            if dl["k"] == "class":
                for m in dl["methods"]:
                    fns[dl["n"][:-6] + "." + m["n"]] = m
    for s in P["services"]:
        for m in s["methods"]:
            fn = fns.get(s["n"] + "." + m["n"][0].lower() + m["n"][1:])
            if fn is None:
                raise work.RealViolation("no client function for %s.%s" % (s["n"], m["n"]))
            traces.append(dict(prog=1, ev=[dict(e="fn", m=s["n"] + "." + m["n"], params=fn["params"], ret=fn["t"], args=[a["t"] for a in m["args"]],
                                                rets=[a["t"] for a in m["rets"]])]))
    binary = work.go_build(d, "./cmd/types", d + "/types.bin")
    calls = [dict(svc=s["n"], m=m["n"], zero=b.zero.get(s["n"] + "." + m["n"], False), seed=rnd.getrandbits(40)) for s in P["services"] for m in s["methods"] if m["rets"] for _ in range(20 if THOROUGH else 4)]
    rt.drive(binary, d, calls)
    for ev in jload(d + "/traces.json"):
        if ev["e"] == "wire":
            ev["ret"] = fns[ev["svc"] + "." + ev["m"][0].lower() + ev["m"][1:]]["t"]
        traces.append(dict(prog=1, ev=[ev]))
    verdict, st, tr = rt.judge(d, traces, [], module="TraceTypes", cfg=CFG, env=dict(programs=[dict(D=D, T=T)]))
    ctx.cover(states=st, transitions=tr, traces=len(traces), programs=1, declarations=len(T), calls=len(calls))
    ctx.sample(traces[-1]["ev"])
    named = set()
    for t, v in reversed(list(zip(traces, verdict))):   # fields before the declarations they are in
        if v is None:
            continue
        ev = t["ev"][0]
        if ev["e"] == "decl" and ev["id"] in named:
            continue
        name = ev.get("id") or ev.get("m") if ev["e"] != "wire" else ev["svc"] + "." + ev["m"]
        ways = b.case.get(name, [])
        ways = ways if isinstance(ways, list) else [ways]
        if ev["e"] == "prop":
            named.add(name)
            f = [f for f in D[name]["fields"] if not f["ignore"] and f["exported"] and not f["inline"]][ev["i"] - 1]
            props = (T.get(name) or [{}])[0].get("props", [])
            got = ["%s%s:%s" % (x["n"], "?" if x["opt"] else "", gp.showts(x["t"])) for x in props if x["n"] == f["name"]] or [x["n"] for x in props]
            what = "field %s%s of type %s has %s" % (f["name"], "?" if f["omit"] else "", gp.show(f["t"]), got)
        elif ev["e"] == "fn":
            got = "(%s): %s" % (", ".join(gp.showts(x["t"]) for x in ev["params"]), gp.showts(ev["ret"]))
            what = "client function for (%s) (%s) is %s" % (", ".join(map(gp.show, ev["args"])), ", ".join(map(gp.show, ev["rets"])), got)
        elif ev["e"] == "wire":
            got = str(ev["vs"])
            what = "JSON is not a member of %s: %s" % (gp.showts(ev["ret"]), got[:800])
        else:
            got = str(T.get(name, "nothing"))
            what = "declaration for %s is %s" % (str(D.get(name, ev))[:800], got[:800])
        ctx.violation("%s (%s %s): %s" % (name, ev["e"], ", ".join(sorted({"%s/%s" % (w["l"], "-".join(w["cons"])) for w in ways}))[:300], what),
                      dict(sig=b.known.get(name) if ev["e"] in ("wire", "decl", "prop") else None, ways=ways, behaviour=got))
