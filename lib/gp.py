"""Program records (see spec/GoTypes.tla) and their Go source: packages, declarations, services, configuration;
runs of the generator over them and the syntax of the TypeScript it writes."""
import json, os, re
import work
from work import write, run
import goprog

MOD = "example.com/gx"

# ---------------------------------------------------------------- constructors
def prim(n): return dict(k="prim", n=n)
IFACE, TIME = dict(k="iface"), dict(k="time")
def ref(p, n): return dict(k="ref", id=p + "." + n, p=p, n=n)
def ptr(e): return dict(k="ptr", e=e)
def slc(e): return dict(k="slice", e=e)
def mp(key, e): return dict(k="map", key=key, e=e)
def anon(fields): return dict(k="anon", fields=fields)


def fld(n, t, name=None, omit=False, ignore=False, inline=False, union=False, typ="", exported=None, emb=False):
    """name: JSON name from the tag or None; emb: embedded"""
    if exported is None:
        exported = n[:1].isupper()   # (also beyond ASCII)
    return dict(n=n, t=t, name=name if name is not None else n, tagname=name or "", omit=omit, ignore=ignore, inline=inline, union=union,
                typ=typ, exported=exported, emb=emb or inline)


def struct(p, n, fields, f="a"):
    return dict(p=p, n=n, id=p + "." + n, f=f, k="struct", fields=fields)


def again(d, n, alias=False, f=None, p=None):
    """the type of declaration d declared once more, under the name n"""
    p = p or d["p"]
    return dict(d, p=p, n=n, id=p + "." + n, f=f or d["f"], again=dict(t=ref(d["p"], d["n"]), alias=alias), **({"consts": []} if "consts" in d else {}))


def defd(p, n, t, f="a"):
    return dict(p=p, n=n, id=p + "." + n, f=f, k="def", t=t)


def scalar(p, n, go, consts=(), f="a", base=None):
    """go: Go type text; consts: (name, literal text, JSON kind, JSON text, file)"""
    base = base or dict(string="string", bool="bool").get(go, "any" if go.startswith("interface") else "number")
    return dict(p=p, n=n, id=p + "." + n, f=f, k="scalar", base=base, go=go, consts=[dict(n=c[0], lit=c[1], v=dict(j=c[2], v=c[3]), f=c[4]) for c in consts])


# ---------------------------------------------------------------- rendering
class Imports:
    """the imports of one file; odd: packages imported under another name"""
    def __init__(self, cur, odd=None):
        self.cur, self.used, self.odd = cur, {}, odd or {}

    def name(self, path):
        a = self.odd.get(path) or path.split("/")[-1].replace("-", "_")
        while any(v == a and k != path for k, v in self.used.items()):
            a += "x"
        self.used[path] = a
        return a

    def text(self):
        if not self.used:
            return ""
        return "import (\n%s)\n\n" % "".join(
            '\t%s"%s"\n' % ("" if a == p.split("/")[-1] and p not in self.odd else a + " ", p) for p, a in sorted(self.used.items()))


def gotype(t, im):
    k = t["k"]
    if k == "prim":
        return t["n"]
    if k == "iface":
        return "interface{}"
    if k == "error":
        return "error"
    if k == "time":
        return im.name("time") + ".Time"
    if k == "ref":
        return t["n"] if t["p"] == im.cur else im.name(t["p"]) + "." + t["n"]
    if k == "ptr":
        return "*" + gotype(t["e"], im)
    if k == "slice":
        return "[]" + gotype(t["e"], im)
    if k == "map":
        return "map[%s]%s" % (gotype(t["key"], im), gotype(t["e"], im))
    if k == "anon":
        return "struct {\n%s}" % gofields(t["fields"], im)
    raise ValueError(t)


def gofields(fs, im):
    out, last = "", None
    for f in fs:
        tags = []
        h = sum(map(ord, f["n"] + f["tagname"])) % 7
        opts = (",inline" if f["inline"] and not f.get("bare") else "") + (("," if h == 4 and f["tagname"] else ",other" if h == 5 else "") + ",omitempty" if f["omit"] else "")
        if f["ignore"]:
            tags.append('json:"-"')
        elif f["tagname"] or opts:
            tags.append('json:"%s%s"' % (f["tagname"], opts or ("," if f["tagname"] == "-" else "")))
        if f["union"]:
            tags.append('gotsrpc:"union"')
        elif f["typ"]:
            tags.append('gotsrpc:"type:%s"' % f["typ"])
        # the ways a tag is written: raw or interpreted string, among tags of others, in any order
        if tags and h in (1, 2):
            tags.insert(h - 1, 'yaml:"other,omitempty" validate:"-"')
        if h == 3:
            tags.reverse()
        tag = " ".join(tags)
        tag = "`%s`" % tag if h > 1 else '"%s"' % tag.replace("\\", "\\\\").replace('"', '\\"')
        # fields of one type may share a line
        t = gotype(f["t"], im)
        if last == t and not tags and not f["emb"]:
            out = out[:-len(" " + t + "\n")] + ", %s %s\n" % (f["n"], t)
            continue
        last = t if not tags and not f["emb"] else None
        out += "\t%s%s%s\n" % ("" if f["emb"] else f["n"] + " ", t, " " + tag if tags else "")
    return out


def godecl(d, im):
    if d.get("again"):   # a type defined as (or an alias of) another one
        a = d["again"]
        return "type %s %s%s\n" % (d["n"], "= " if a["alias"] else "", gotype(a["t"], im))
    if d["k"] == "struct":
        return "type %s struct {\n%s}\n" % (d["n"], gofields(d["fields"], im))
    if d["k"] == "def":
        return "type %s %s\n" % (d["n"], gotype(d["t"], im))
    if d["k"] == "scalar":
        return "type %s %s\n" % (d["n"], d["go"])
    if d["k"] == "raw":
        return re.sub(r"@\{(.*?)\}", lambda m: im.name(m.group(1)), d["text"]) + "\n"
    raise ValueError(d)


def pkgname(path):
    return path.split("/")[-1].replace("-", "_")


def render(P, d, impl=True, odd=None, root=None):
    """writes the packages of a program; impl: with implementations and registry of the services"""
    files = {}
    root = root or {}
    def at(p, f):
        if (p, f) not in files:
            files[(p, f)] = [Imports(p, (odd or {}).get((p, f))), "", ""]
        return files[(p, f)]
    def add(p, f, fn):
        e = at(p, f)
        e[1] += fn(e[0])
    for dl in P["decls"]:
        text = godecl(dl, at(dl["p"], dl["f"])[0])
        if (dl["k"] != "raw" or dl["text"].startswith("type ")) and (sum(map(ord, dl["p"] + dl["f"])) + len(P["decls"])) % 3 == 0:
            at(dl["p"], dl["f"])[2] += "\t" + text[5:]   # all types of the file in one declaration
        else:
            at(dl["p"], dl["f"])[1] += text
        for c in dl.get("consts", ()):
            add(dl["p"], c["f"], lambda im: c.get("text") or "const %s %s = %s\n" % (c["n"], dl["n"], c["lit"]))
    for s in P["services"]:
        def methods(im, ms):
            return [dict(name=m["n"], sess=m.get("sess", False), args=[(a["n"], gotype(a["t"], im)) for a in m["args"]],
                         rets=[(r["n"], gotype(r["t"], im)) for r in m["rets"]]) for m in ms]
        def text(im, render, ms=None):
            ms = s["methods"] if ms is None else ms
            if any(m.get("sess") for m in ms):
                im.used["net/http"] = "http"
            r = render(dict(name=s["n"], kind=s["kind"], methods=methods(im, ms)))
            if "vh." in r:
                im.odd[MOD + "/h"] = "vh"
                im.name(MOD + "/h")
            return r
        if s["kind"] == "iface":
            add(s["p"], s.get("f", "service"), lambda im: text(im, goprog.render_service))
            if impl:
                add(s["p"], "impl", lambda im: text(im, goprog.render_impl))
        else:
            for m in s["methods"]:   # methods of a struct may be in any file
                add(s["p"], m.get("f", s.get("f", "service")), lambda im: text(im, lambda x: goprog.render_service(x).split("\n", 1)[1], [m]))
            add(s["p"], s.get("f", "service"), lambda im: text(im, lambda x: goprog.render_service(x), []))
    for (p, f), (im, body, types) in files.items():
        if types:
            body = "type (\n%s)\n\n%s" % (types, body)
        base = root.get(p) or os.path.join(d, p[len(MOD):].lstrip("/"))
        write("%s/%s.go" % (base, f), "package %s\n\n%s%s" % (pkgname(p), im.text(), body))
    if impl:
        for p in sorted({s["p"] for s in P["services"]}):
            im = Imports(p, {MOD + "/h": "h"})
            ss = [dict(name=s["n"], kind=s["kind"], ep=s["ep"], http=s.get("http", True), client=s.get("client", s.get("http", True)), gorpc=s.get("gorpc"),
                       methods=[dict(name=m["n"], sess=m.get("sess", False), args=[("", gotype(a["t"], im)) for a in m["args"]],
                                     rets=[("", gotype(r["t"], im)) for r in m["rets"]]) for m in s["methods"]])
                  for s in P["services"] if s["p"] == p]
            reg = goprog.render_reg(pkgname(p), p, ss).replace("example.com/fx", MOD)
            imps = "".join('\t%s "%s"\n' % (a, q) for q, a in im.used.items() if q not in (MOD + "/h", "net/http"))
            uses, consts = "", ""
            for dl in P["decls"]:
                if dl["p"] == p and dl.get("consts"):
                    consts += "\treflect.TypeOf(*new(%s)): {%s},\n" % (dl["n"], ", ".join(c["n"] for c in dl["consts"]))
            reg = reg.replace("@@IMPORTS@@", imps).replace("@@USES@@", uses)
            base = root.get(p) or os.path.join(d, p[len(MOD):].lstrip("/"))
            write(base + "/reg.go", reg)
    if impl:
        for p in sorted({dl["p"] for dl in P["decls"]}):
            consts = "".join("\treflect.TypeOf(*new(%s)): {%s},\n" % (dl["n"], ", ".join(c["n"] for c in dl["consts"]))
                             for dl in P["decls"] if dl["p"] == p and dl.get("consts"))
            base = root.get(p) or os.path.join(d, p[len(MOD):].lstrip("/"))
            write(base + "/consts_reg.go", 'package %s\n\nimport "reflect"\n\nvar VConsts = map[reflect.Type][]interface{}{\n%s}\n' % (pkgname(p), consts))


def main_services(P):
    """source of the file that gives a driver all services and constants"""
    ps = sorted({s["p"] for s in P["services"]})
    cs = sorted({dl["p"] for dl in P["decls"]})
    al = {p: "p%d" % i for i, p in enumerate(sorted(set(ps) | set(cs)))}
    return 'package main\n\nimport (\n\t"reflect"\n\t"%s/h"\n%s)\n\nvar services []*h.Service\nvar consts = map[reflect.Type][]interface{}{}\n\nfunc init() {\n%s%s}\n' % (
        MOD, "".join('\t%s "%s"\n' % (a, p) for p, a in al.items()),
        "".join("\tservices = append(services, %s.Services...)\n" % al[p] for p in ps),
        "".join("\tfor k, v := range %s.VConsts {\n\t\tconsts[k] = v\n\t}\n" % al[p] for p in cs))


def conf(P):
    """configuration as plain data"""
    targets = {}
    for t in P["targets"]:
        ss = [s for s in P["services"] if s["p"] == t["p"]]
        c = dict(package=t["p"], services={s["ep"]: s["n"] for s in ss})
        if t.get("out"):
            c["out"] = t["out"]
        http = [s["n"] for s in ss if s.get("http", True)]
        if t.get("tsrpc", True) and http:
            c["tsrpc"] = http
        g = [s["n"] for s in ss if s.get("gorpc")]
        if g:
            c["gorpc"] = g
        if t.get("skip"):
            c["skipTSRPCClient"] = True
        targets[t["n"]] = c
    maps = {}
    for m in P["mappings"]:
        maps[m["p"]] = dict(out=m["out"])
        for k in ("structs", "scalars"):
            if m.get(k):
                maps[m["p"]][k] = m[k]
    return dict(module=dict(name=MOD, path="."), targets=targets, mappings=maps)


def write_conf(P, d, name="gotsrpc.yml"):
    write(os.path.join(d, name), json.dumps(conf(P), indent=1))


def module(d):
    import prog
    work.new_module(d, MOD)
    prog.copy_h(d)


def ts_files(P):
    return [m["out"] for m in P["mappings"]] + [t["out"] for t in P["targets"] if t.get("out")]


def parse_ts(jobs, d):
    """jobs: [(root, [files])] -> per job the parsed files; every reference gets the name it stands for as 'id'"""
    write(d + "/tslist.json", json.dumps([dict(root=r, files=[os.path.normpath(f) for f in fs]) for r, fs in jobs]))
    run(["node", os.path.join(work.VERIF, "node/tsast.js"), work.NODE_MODULES + "/typescript", d + "/tslist.json", d + "/tsout.json"], check=True, timeout=300)
    return work.jload(d + "/tsout.json")


def resolve(files, P):
    """sets the id of every reference: package.Name by the file it is imported from (or '?...')"""
    pk = {os.path.normpath(m["out"]): m["p"] for m in P["mappings"]}
    for f in files:
        imp = {i["alias"]: pk.get(i["file"], "?" + i["file"]) for i in f["imports"]}
        own = pk.get(f["file"], "?" + f["file"])
        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                if x.get("k") == "ref":
                    x["id"] = (own if x["m"] == "" else imp.get(x["m"], "?" + x["m"])) + "." + x["n"]
                for y in list(x.values()):
                    walk(y)
        walk(f["decls"])
    return files


def ts_decls(files, P):
    """-> (name -> declarations of the name in the file of its package, other declarations found in mapped files)"""
    pk = {os.path.normpath(m["out"]): m["p"] for m in P["mappings"]}
    T = {}
    for f in files:
        if f["file"] in pk:
            for dl in f["decls"]:
                T.setdefault(pk[f["file"]] + "." + dl["n"], []).append(dl)
    return T


def go_decls(P):
    """the declarations as the specification reads them"""
    D = {}
    for dl in P["decls"]:
        if dl["k"] == "struct":
            D[dl["id"]] = dict(k="struct", fields=dl["fields"])
        elif dl["k"] == "def":
            D[dl["id"]] = dict(k="def", t=dl["t"])
        elif dl["k"] == "scalar":
            D[dl["id"]] = dict(k="scalar", base=dl["base"], consts=[dict(n=c["n"], v=c["v"]) for c in dl["consts"]])
    return D


def show(t):
    """short text of a type"""
    k = t["k"]
    if k == "anon":
        return "struct{%s}" % "; ".join("%s %s%s" % (f["name"], show(f["t"]), " omitempty" if f["omit"] else "") for f in t["fields"])
    if k == "ref":
        return t["id"].replace(MOD + "/", "")
    return {"prim": lambda: t["n"], "iface": lambda: "interface{}", "time": lambda: "time.Time", "ptr": lambda: "*" + show(t["e"]), "slice": lambda: "[]" + show(t["e"]),
            "map": lambda: "map[%s]%s" % (show(t["key"]), show(t["e"]))}.get(k, lambda: str(t))()


def showts(a):
    k = a.get("k")
    if k in ("kw", "typeof", "raw"):
        return a["n"]
    if k == "lit":
        return "'%s'" % a["n"]
    if k == "ref":
        return a["id"].replace(MOD + "/", "")
    if k == "obj":
        return "{%s}" % "; ".join(p["n"] + ("?" if p["opt"] else "") + ":" + showts(p["t"]) for p in a["props"])
    return {"arr": lambda: "Array<%s>" % showts(a["e"]), "rec": lambda: "Record<%s,%s>" % (showts(a["key"]), showts(a["e"])), "partial": lambda: "Partial<%s>" % showts(a["e"]),
            "promise": lambda: "Promise<%s>" % showts(a["e"]), "or": lambda: "|".join(showts(x) for x in a["ts"])}.get(k, lambda: str(a))()
