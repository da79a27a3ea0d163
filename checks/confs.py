"""C23: configuration documents, places and go.mod files built by TLC (spec/ConfigCases.tla), loaded by the real code;
the results are judged by spec/Config.tla."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import graph, rt, work
from work import SEED, THOROUGH

CFG = graph.CFG
TEXT = {"@un": "\u00fcn\u00ef", "@Uber": "\u00dcber", "@a": "\u00e4"}
PLAIN = re.compile(r"^[A-Za-z/.0-9][\w./-]*$")


def real(x):
    t = json.dumps(x)
    for k, v in TEXT.items():
        t = t.replace(k, json.dumps(v)[1:-1])
    return json.loads(t)


def scalar_text(s, style, rnd):
    if isinstance(s, bool):
        return rnd.choice(["true", "True", "yes", "on"] if s else ["false", "no", "off"]) if style != "json" else json.dumps(s)
    if style == "json":
        return json.dumps(s)
    if PLAIN.match(s) and s not in ("null",) and style != "quoted" and rnd.random() < 0.8:
        return s
    return "'%s'" % s.replace("'", "''") if rnd.random() < 0.5 else json.dumps(s, ensure_ascii=rnd.random() < 0.5)


class Yaml:
    def __init__(self, style, rnd):
        self.style, self.rnd, self.n = style, rnd, 0

    def flow(self, x):
        if isinstance(x, dict):
            return "{" + ", ".join("%s: %s" % (scalar_text(k, self.style, self.rnd), self.flow(v)) for k, v in x.items()) + "}"
        if isinstance(x, list):
            return "[" + ", ".join(self.flow(v) for v in x) + "]"
        return "null" if x is None else scalar_text(x, self.style, self.rnd)

    def block(self, x, ind=0):
        """the lines of a non-empty mapping"""
        out, pad, last = "", "  " * ind, None
        for k, v in x.items():
            key = scalar_text(k, self.style, self.rnd)
            if self.style == "comments" and self.rnd.random() < 0.4:
                out += "%s# %s: not this\n\n" % (pad, k)
            note = "  # note" if self.style == "comments" and self.rnd.random() < 0.4 else ""
            if v is None:
                out += "%s%s:%s%s\n" % (pad, key, self.rnd.choice(["", " ~", " null"]), note)
            elif isinstance(v, (dict, list)) and not v or self.rnd.random() < 0.15 and self.style == "flow":
                out += "%s%s: %s%s\n" % (pad, key, self.flow(v), note)
            elif isinstance(v, dict):
                out += "%s%s:%s\n%s" % (pad, key, note, self.block(v, ind + 1))
            elif isinstance(v, list):
                if self.style == "anchors" and last is not None and last[0] == v:
                    out += "%s%s: *%s\n" % (pad, key, last[1])
                    continue
                self.n += 1
                anchor = " &a%d" % self.n if self.style == "anchors" else ""
                out += "%s%s:%s%s\n" % (pad, key, anchor, note) + "".join("%s- %s\n" % (pad + self.rnd.choice(["", "  "]) if False else pad, scalar_text(e, self.style, self.rnd)) for e in v)
                last = (v, "a%d" % self.n)
            else:
                out += "%s%s: %s%s\n" % (pad, key, scalar_text(v, self.style, self.rnd), note)
        return out


def document(c, root, rnd):
    """the text of the configuration file, or None"""
    doc, style = c["doc"], c["style"]
    def shuffled(x):
        ks = list(x)
        rnd.shuffle(ks)
        return {k: x[k] for k in ks}
    def some(x, defaults):
        """settings that have their default value may be left out, or be empty"""
        return shuffled({k: v for k, v in x.items() if v not in ("", [], False) or rnd.random() < 0.3})
    ts = {t["n"]: some(dict(package=t["package"], services={s["ep"]: s["n"] for s in t["services"]}, module=t["module"], out=t["out"], gorpc=t["gorpc"], tsrpc=t["tsrpc"], skipTSRPCClient=t["skip"]), None) for t in doc["targets"]}
    ms = {m["p"]: some(dict(out=m["out"], structs=m["structs"], scalars=m["scalars"], module=m["module"]), None) for m in doc["mappings"]}
    for x in list(ts.values()) + list(ms.values()):
        if rnd.random() < 0.1:
            x["modulekind"] = "commonjs"
    top = dict(targets=ts, mappings=ms)
    if doc["mod"]["kind"] != "none" or doc["mod"]["n"] or rnd.random() < 0.5:
        mod = dict(name=doc["mod"]["n"])
        p = "/".join(doc["mod"]["p"])
        if doc["mod"]["kind"] == "rel":
            mod["path"] = p[1:] if p.startswith("/") else p
        elif doc["mod"]["kind"] == "abs":
            mod["path"] = root + "/" + p
        top["module"] = mod
    top = shuffled(top)
    f = doc["fault"]
    bad = {"targets-list": lambda: top.update(targets=["a", "b"]), "module-list": lambda: top.update(module=["x"]),
           "services-list": lambda: ts.update(zz=dict(package="x", services=["A"])), "gorpc-string": lambda: ts.update(zz=dict(package="x", gorpc="A")),
           "tsrpc-map": lambda: ts.update(zz=dict(package="x", tsrpc=dict(A="B"))), "out-list": lambda: ts.update(zz=dict(out=["a"])),
           "skip-text": lambda: ts.update(zz=dict(skipTSRPCClient="maybe")), "mapping-string": lambda: ms.update({"z/z": "out.ts"}),
           "structs-map": lambda: ms.update({"z/z": dict(structs=dict(a="b"))})}.get(f)
    if bad:
        bad()
    if f == "null":
        k = rnd.choice([x for x in (ts, ms) if x])
        k[rnd.choice(list(k))] = None
    if style == "json":
        text = json.dumps(top, indent=rnd.choice([None, 1, 2]), ensure_ascii=rnd.random() < 0.5)
    else:
        y = Yaml(style, rnd)
        text = (y.flow(top) + "\n") if style == "flow" and rnd.random() < 0.5 else y.block(top)
        text = rnd.choice(["", "---\n"]) + text
        if rnd.random() < 0.15:
            text = text.replace("\n", "\r\n")
    if f == "list":
        return "- targets\n- mappings\n"
    if f == "scalar":
        return "targets\n"
    if f == "tab":
        return text + "\n\tx: y\n" if style != "json" and not text.rstrip().endswith("}") else "targets:\n\tx: y\n"
    if f == "unclosed":
        return "targets: {\n" if style in ("json", "flow") else text + '\nextra: "open\n'
    if f == "cut":
        return 'module: {name: x, path: "."}\ntargets:\n  a:\n    services: {/a: A'
    if f == "alias":
        return "targets: *nowhere\n"
    if f == "key-twice-indent":
        return "targets:\n  a:\n    package: x\n   services:\n     /a: A\n"
    if f == "binary":
        return "targets:\n  a:\x00\x01\n"
    return text


def gomod_text(g, rnd):
    if not g["n"]:
        return ""
    req = ["%s %s" % (r["p"], r["v"]) for r in g["reqs"]]
    rep = ["%s => %s" % (" ".join(x for x in (r["p"], r["v"]) if x), " ".join(x for x in (r["n"], r["nv"]) if x)) for r in g["reps"]]
    def section(word, items):
        if rnd.random() < 0.5:
            return "".join("%s %s%s\n" % (word, x, rnd.choice(["", " // indirect"]) if word == "require" else "") for x in items)
        return "%s (\n%s)\n" % (word, "".join("\t%s\n" % x for x in items)) if items else ""
    parts = [section("require", req), section("replace", rep)]
    t = "module %s\n\ngo 1.%d\n\n" % (g["n"], rnd.choice([18, 21, 23])) + rnd.choice(["", "// a comment\n"]) + "".join(parts)
    return t + {"": "", "word": "nonsense x\n", "version": "require github.com/q/q banana\n", "unclosed": "require (\n\tgithub.com/q/q v1.0.0\n", "directory": ""}[g["bad"]]


def check(pid, ctx, replay):
    base = work.scratch()
    cli = work.build_cli(base)
    work.new_module(base + "/m")
    rt.copy_rt(base + "/m", "cmd/confload")
    loader = work.go_build(base + "/m", "./cmd/confload", base + "/confload.bin")
    if replay:
        cs = replay["cases"]
    else:
        cs, r = graph.simulate(base + "/gen", 12000 if THOROUGH else 3000, dict(x=0), SEED, depth=80, module="ConfigCases")
        ctx.tlc(r)
        for i, c in enumerate(cs):
            c["seed"] = SEED * 100003 + i
    cs = [real(c) for c in cs]
    jobs, places = [], []
    for i, c in enumerate(cs):
        rnd = random.Random(c["seed"])
        root = "%s/c%d" % (base, i)
        for x in (["w"], ["w", "conf"], ["w", "app"], ["w", "a b"]):
            os.makedirs("/".join([root] + x), exist_ok=True)
        cd = "/".join([root] + c["loc"]["dir"])
        os.makedirs(cd, exist_ok=True)
        for m in c["loc"]["mods"]:
            f = "/".join([root] + m["d"] + ["go.mod"])
            if m["gm"]["bad"] == "directory":
                os.makedirs(f, exist_ok=True)
            else:
                work.write(f, gomod_text(m["gm"], rnd))
        name = rnd.choice(["gotsrpc.yml", "gotsrpc.yaml", "a b.yml", ".gotsrpc"])
        text = document(c, root, rnd)
        f = cd + "/" + name
        if c["doc"]["fault"] == "directory":
            os.makedirs(f)
        elif c["doc"]["fault"] == "bad-utf8":
            open(f, "wb").write(b"targets:\n  a:\n    package: \xff\xfe\n")
        elif c["doc"]["fault"] != "missing":
            open(f, "w", newline="").write(text)
        wd = rnd.choice([cd, root, root + "/w", "/"])
        path = rnd.choice([f, os.path.relpath(f, wd), "./" + os.path.relpath(f, wd)])
        places.append((wd, path, root))
        jobs.append(dict(Dir=wd, File=path, Root=root, Ask=c["services"]))
    work.jdump(base + "/jobs.json", jobs)
    work.run([loader, base + "/jobs.json", base + "/results.json"], check=True)
    results = work.jload(base + "/results.json")

    def cli_run(i):
        wd, path, root = places[i]
        before = {os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs}
        p = work.run([cli, path], cwd=wd, timeout=60)
        return p, sorted({os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs} - before)
    failing = [i for i, r in enumerate(results) if r["kind"] == "error" and places[i][0] != "/"][:400]
    with ThreadPoolExecutor(8) as ex:
        ran = dict(zip(failing, ex.map(cli_run, failing)))
    traces = []
    for i, (c, r) in enumerate(zip(cs, results)):
        ev = [dict(e="load", c=i + 1, r={k: v for k, v in r.items() if k != "exposes" and (r["kind"] == "conf" or k in ("kind", "text"))})]
        if r["kind"] == "conf":
            known = {t["n"] for t in c["doc"]["targets"]}
            ev += [dict(x, e="exposes", c=i + 1) for x in r["exposes"] if x["t"] in known]
        if i in ran:
            ev.append(dict(e="cli", c=i + 1, rc=ran[i][0].returncode, files=ran[i][1]))
        traces.append(ev)
    verdict, st, tr = rt.judge(base, [dict(ev=ev) for ev in traces], [], module="TraceConfig", cfg=CFG, env=dict(docs=[dict(doc=c["doc"], loc=c["loc"]) for c in cs]))
    kinds = {}
    for r in results:
        kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
    ctx.cover(states=st, transitions=tr, traces=len(traces), documents=len(cs), cli_runs=len(ran), **{"loaded_" + k.replace(" ", "_"): v for k, v in kinds.items()})
    ctx.sample(traces[-1][:3])
    for ev, v, c, r, pl in zip(traces, verdict, cs, results, places):
        if v is not None:
            e = ev[v - 1]
            ctx.violation("%s of a file with fault '%s' (%s, module %s) gives %s" % (e["e"], c["doc"]["fault"], c["style"], c["doc"]["mod"], json.dumps(e)[:500]), dict(sig=None, cases=[c], event=e))
