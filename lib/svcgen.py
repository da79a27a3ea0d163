"""Renders the service packages of spec/SvcCases.tla: one package per program in a module they share."""
import json, os
import work
from work import write

MOD = "example.com/fx"
U = {"@uber": "\u00fcber", "@Uber": "\u00dcber"}
# packages of other modules (a path beginning with a digit, one that is a word of TypeScript) and their directories
FAR = {"4d.example.com/lib": "fourd/lib", "enum": "enumd"}
EXTRA = "require (\n4d.example.com v0.0.0\nenum v0.0.0\n)\nreplace (\n4d.example.com => ./fourd\nenum => ./enumd\n)\n"
# leaf package -> (import path, package name, name the language assumes)
DEPS = {"x/d1": "d1", "x-d1": "xd", "lib/v2": "lib", "core/v1": "v1", "go-dash": "dash", "dot.v3": "dot", "x/time": "time", "x/http": "http", "~u/t+x": "tx", "4d.example.com/lib": "lib", "enum": "enum"}
ASSUMED = {"x/d1": "d1", "x-d1": "x", "lib/v2": "lib", "core/v1": "core", "go-dash": "dash", "dot.v3": "dot", "x/time": "time", "x/http": "http", "~u/t+x": "t", "4d.example.com/lib": "lib", "enum": "enum", "time": "time", "net/http": "http"}
PKGS = {"svc": "svc", "time": "time", "main": "main", "my-svc": "mysvc"}


def place(p):
    """the import path of a package of DEPS"""
    return p if p in FAR else MOD + "/" + p


def ident(n):
    return U.get(n, n)


def wrapped(ws, leaf):
    if ws and ws[-1] == "kmap":
        return wrapped(ws[:-1], "map[%s]string" % leaf)
    return "".join(dict(ptr="*", slice="[]", map="map[string]", imap="map[int64]")[w] for w in ws) + leaf


class File:
    """a Go file under construction, with its imports"""
    def __init__(self, prog, style, seed):
        self.prog, self.style, self.seed = prog, style, seed
        self.imports, self.body, self.head = {}, "", ""   # path -> alias

    def pkg(self, path, name):
        if path not in self.imports:
            taken = set(self.imports.values()) | {"vh", "h", "reflect", "tls"}
            if self.style == "plain":
                alias = name
            elif self.style == "alias":
                alias = "im_" + "".join(c if c.isalnum() else "_" for c in path)
            else:   # every file has its own names, the same name is another package elsewhere
                pool = ["d1", "v1", "lib", "time", "http", "xd", "dash", "dot", "al"]
                alias = pool[(self.seed + len(self.imports)) % len(pool)]
            while alias in taken:
                alias += "x"
            self.imports[path] = alias
        return self.imports[path]

    def type(self, t):
        l = t["l"]
        if l == "time.Time":
            leaf = self.pkg("time", "time") + ".Time"
        elif l.startswith("@svc."):
            leaf = ident(l[5:])
        elif l.startswith("@"):
            p, n = l[1:].rsplit(".", 1)
            leaf = self.pkg(place(p), DEPS[p]) + "." + n
        else:
            leaf = l
        return wrapped(t["w"], leaf)

    def text(self, pkgname):
        ims = ""
        for p, a in sorted(self.imports.items()):
            assumed = ASSUMED[p[len(MOD) + 1:] if p.startswith(MOD) else p]
            real = DEPS.get(p[len(MOD) + 1:], assumed) if p.startswith(MOD) else assumed
            # a name is written down unless it is the one assumed from the path
            ims += '\t%s"%s"\n' % ("" if a == real and a in (assumed, p.rsplit("/", 1)[-1]) else a + " ", p)
        if "vh." in self.body:
            ims += '\tvh "%s/h"\n' % MOD
        uses = "".join("var _ %s\n" % x for x in [a + (".Handler" if p == "net/http" else ".Time" if p == "time" else ".T") for p, a in sorted(self.imports.items())])
        return self.head + "package %s\n\n" % pkgname + ("import (\n%s)\n\n" % ims if ims else "") + self.body + uses


def params(f, m, names=True, own=False):
    """parameter list of a method, as declared; own: with names of the harness"""
    out = []
    if m["sess"]:
        h = f.pkg("net/http", "http")
        anon = m["args"] and m["args"][0]["n"] == "" and not own
        out += [("" if anon else "w0 " if not own else "zw ") + h + ".ResponseWriter", ("" if anon else "r0 " if not own else "zr ") + "*" + h + ".Request"]
    for i, a in enumerate(m["args"]):
        n = "z%d" % i if own else ident(a["n"])
        out.append((n + " " if n else "") + f.type(a["t"]))
    return ", ".join(out)


def results(f, m, own=False):
    rs = [("" if own or not r["n"] else ident(r["n"]) + " ") + f.type(r["t"]) for r in m["rets"]]
    if not rs:
        return ""
    return " " + rs[0] if len(rs) == 1 and (own or not m["rets"][0]["n"]) else " (" + ", ".join(rs) + ")"


def known(a):
    """can the code of a struct's method read this argument?"""
    return a["n"] not in ("", "_")


def hook_call(f, svc, m, recv, args):
    w = '"%s"' % ident(m["n"]["n"])
    call = 'vh.Call(%s.Hook, "%s", %s, %s, %s, []interface{}{%s})' % (recv, ident(svc), w, "zw" if m["sess"] else "nil", "zr" if m["sess"] else "nil", args)
    if not m["rets"]:
        return "{ %s }" % call
    return "{ rs__ := %s; return %s }" % (call, ", ".join("vh.Ret[%s](rs__, %d)" % (f.type(r["t"]), i) for i, r in enumerate(m["rets"])))


def render(prog, i, base):
    """writes package i; -> the program with the names and positions of everything"""
    T = prog["target"]
    d, pkgname = "p%d/%s" % (i, T["pkg"]), PKGS[T["pkg"]]
    path = MOD + "/" + d
    files = {}
    def at(n):
        if n not in files:
            files[n] = File(prog, T["style"], i + sum(map(ord, n)))
        return files[n]
    grouped = {}
    for s in prog["svcs"]:
        sn = ident(s["n"])
        f = at(s["f"])
        if s["kind"] == "iface":
            text = "%s interface {\n" % sn
            base_ = [m for m in s["methods"] if m.get("base")]
            if base_:
                text += "\tz%s\n" % sn
                f.body += "type z%s interface {\n%s}\n\n" % (sn, "".join("\t%s(%s)%s\n" % (ident(m["n"]["n"]), params(f, m), results(f, m)) for m in base_))
            # an embedded interface without methods changes nothing
            mk = s.get("marker", 0)
            if mk > 1:
                f.body += "type z%sMark interface{}\n\n" % sn
            for j, m in enumerate(s["methods"]):
                if mk == j + 2:
                    text += "\tz%sMark\n" % sn
                if m["in"] and not m.get("base"):
                    text += "\t%s(%s)%s\n" % (ident(m["n"]["n"]), params(f, m), results(f, m))
            text += "}"
        else:
            text = "%s struct{ Hook vh.Hook }" % sn
        if s["group"]:
            grouped.setdefault(s["f"], []).append(text)
        else:
            f.body += "// %s is a service\ntype %s\n\n" % (sn, text)
        impl = at("impl")
        if s["kind"] == "iface":
            impl.body += "type %sImpl struct{ Hook vh.Hook }\n\n" % sn
            for m in s["methods"]:
                if m["in"]:
                    impl.body += "func (s__ *%sImpl) %s(%s)%s %s\n\n" % (sn, ident(m["n"]["n"]), params(impl, m, own=True), results(impl, m, own=True),
                                                                   hook_call(impl, s["n"], m, "s__", ", ".join("z%d" % k for k in range(len(m["args"])))))
        else:
            for m in s["methods"]:
                if not m["in"]:
                    continue
                g = at(m["f"])
                mn = ident(m["n"]["n"])
                ks = [k for k, a in enumerate(m["args"]) if known(a)]
                anon = m["sess"] and m["args"] and m["args"][0]["n"] == ""
                give = (["w0", "r0"] if m["sess"] and not anon else []) + [ident(m["args"][k]["n"]) for k in ks]
                ptr = "*" if m["recv"] == "ptr" else ""
                g.body += "func (s__ %s%s) %s(%s)%s { %sz_%s_%s(%s) }\n\n" % (ptr, sn, mn, params(g, m), results(g, m), "return " if m["rets"] else "", sn, mn,
                                                                     ", ".join(["s__" if ptr else "&s__"] + give))
                hp = ["s__ *" + sn] + (["zw %s.ResponseWriter" % impl.pkg("net/http", "http"), "zr *%s.Request" % impl.pkg("net/http", "http")] if m["sess"] and not anon else []) + \
                     ["z%d %s" % (k, impl.type(m["args"][k]["t"])) for k in ks]
                impl.body += "func z_%s_%s(%s)%s %s\n\n" % (sn, mn, ", ".join(hp), results(impl, m, own=True),
                                                        hook_call(impl, s["n"], dict(m, sess=m["sess"] and not anon), "s__", ", ".join("z%d" % k if k in ks else '"?"' for k in range(len(m["args"])))))
    for fn, texts in grouped.items():
        at(fn).body += "type (\n%s\n)\n\n" % "\n\n".join(texts)
    at("types").body += ("type Own struct {\n\tA string\n\tB []Kind\n}\n\ntype Kind string\n\nconst (\n\tKindOne Kind = \"one\"\n\tKindTwo Kind = \"two\"\n)\n\n"
                        "type List []Own\n\ntype inner struct {\n\tA string\n}\n\ntype Err struct {\n\tMsg string\n}\n\nfunc (e *Err) Error() string { return e.Msg }\n\n")
    if pkgname == "main":
        at("types").body += "func main() {}\n\n"
    junk(prog, at, pkgname, os.path.join(base, d))
    for n, f in files.items():
        write(os.path.join(base, d, n + ".go"), f.text("main" if n == "z_script" else pkgname + "_test" if n == "y_test" else pkgname))
    if pkgname != "main":
        write(os.path.join(base, d, "reg.go"), registry(prog, path, pkgname))
    conf = dict(package=path, services={s["ep"]: ident(s["n"]) for s in prog["svcs"]})
    if T["out"]:
        conf["out"] = "p%d/ts/client.ts" % i
    for k, sel in (("tsrpc", "ts"), ("gorpc", "go")):
        sel = [ident(s["n"]) for s in prog["svcs"] if s[sel]]
        if sel:
            conf[k] = sel
    if T["skip"]:
        conf["skipTSRPCClient"] = True
    maps = {p: dict(out="p%d/ts/%s%d.ts" % (i, "".join(c if c.isalnum() else "_" for c in p), k)) for k, p in enumerate([path] + [place(q) for q in DEPS] + ["time"])}
    write(os.path.join(base, "p%d.yml" % i), json.dumps(dict(module=dict(name=MOD, path="."), targets={"t": conf}, mappings=maps), indent=1, ensure_ascii=False))
    return path


def junk(prog, at, pkgname, d):
    """files beside the service that are no part of the package (or add nothing to it)"""
    k = prog["target"]["junk"]
    body = ""
    for s in prog["svcs"]:
        sn = ident(s["n"])
        body += "type %s interface {\n\tOther(a, b string) int\n}\n\n" % sn if s["kind"] == "iface" else "func (s__ *%s) Other(a, b string) int { return 1 }\n\n" % sn
    if k == "windows":
        at("z_windows").body += body
    elif k == "ignore":
        f = at("z_ignored")
        f.head, f.body = "//go:build ignore\n\n", body
    elif k == "script":
        f = at("z_script")
        f.head, f.body = "//go:build ignore\n\n", "func main() {}\n\n" + body.replace("func (s__ *", "type Z struct{}\n\nfunc (s__ *", 1) if "func (s__" in body else "func main() {}\n\n" + body
    elif k == "othertag":
        f = at("aa_other")
        f.head, f.body = "//go:build verifother && !linux\n\n", body
    elif k == "test":
        at("z_test").body += "".join("func (s__ *%s) InTest(a, b string) int { return 1 }\n\n" % ident(s["n"]) for s in prog["svcs"] if s["kind"] == "struct") or "var inTest = 1\n\n"
        at("y_test").body += body.replace("func (s__ *", "func Z(s__ *") if "func (s__" not in body else "var inTest = 1\n\n"
    elif k == "funcs":
        for s in prog["svcs"]:
            sn = ident(s["n"])
            at("z").body += "// New%s makes one\nfunc New%s(a string) *%s { return nil }\n\ntype %sHelper struct{}\n\nfunc (h *%sHelper) Helped(a string) string { return a }\n\nfunc Use%s(s *%s, a string) string { return a }\n\n" % ((sn,) * 7)
    elif k == "generated":
        for b in ("gorpc_gen", "gorpcclient_gen", "gotsrpc_gen", "gotsrpcclient_gen"):
            write(os.path.join(d, b + ".go"), "package %s\n\nfunc init() { missing%s() }\n" % (pkgname, b))


def registry(prog, path, pkgname):
    f = File(prog, "alias", 0)
    o = "var _ = reflect.TypeOf\nvar _ tls.Config\nvar _ im_net_http.Handler\n\nvar Services = []*h.Service{\n"
    H = f.pkg("net/http", "http")
    T = prog["target"]
    for s in prog["svcs"]:
        n = ident(s["n"])
        inst = "&%sImpl{hook}" % n if s["kind"] == "iface" else "&%s{hook}" % n
        o += '\t{Name: "%s", Pkg: "%s", Endpoint: "%s",\n' % (n, path, s["ep"])
        if s["ts"]:
            o += "\t\tNewProxy: func(hook h.Hook) %s.Handler { return NewDefault%sGoTSRPCProxy(%s) },\n" % (H, n, inst)
            o += "\t\tNewProxyAt: func(hook h.Hook, ep string) %s.Handler { return New%sGoTSRPCProxy(%s, ep) },\n" % (H, n, inst)
            if not T["skip"]:
                o += "\t\tNewClient: func(url string, c *%s.Client) interface{} { return NewDefault%sGoTSRPCClient(url) },\n" % (H, n)
                o += "\t\tNewClientAt: func(url, ep string, c *%s.Client) interface{} { return New%sGoTSRPCClientWithClient(url, ep, c) },\n" % (H, n)
        if s["go"]:
            o += "\t\tNewGoRPCProxy: func(addr string, hook h.Hook, t *tls.Config) interface{} { return New%sGoRPCProxy(addr, %s, t) },\n" % (n, inst)
            o += "\t\tNewGoRPCClient: func(addr string, t *tls.Config) interface{} { return New%sGoRPCClient(addr, t) },\n" % n
        o += "\t\tMethods: []*h.Method{\n"
        for m in s["methods"]:
            if m["in"]:
                tl = lambda ps: ", ".join("reflect.TypeOf((*%s)(nil)).Elem()" % f.type(p["t"]) for p in ps)
                o += '\t\t\t{Name: "%s", Session: %s, Args: []reflect.Type{%s}, Rets: []reflect.Type{%s}},\n' % (
                    ident(m["n"]["n"]), str(m["sess"]).lower(), tl(m["args"]), tl(m["rets"]))
        o += "\t\t},\n\t},\n"
    o += "}\n"
    ims = '\t"crypto/tls"\n\t"reflect"\n\t"%s/h"\n' % MOD + "".join('\t%s "%s"\n' % (a, p) for p, a in f.imports.items())
    return "package %s\n\nimport (\n%s)\n\n%s" % (pkgname, ims, o)


def deps(base):
    for m, q in (("4d.example.com", "fourd"), ("enum", "enumd")):
        write("%s/%s/go.mod" % (base, q), "module %s\n\ngo 1.23\n" % m)
    for p, n in DEPS.items():
        write(os.path.join(base, FAR.get(p, p), "types.go"), "package %s\n\ntype T struct {\n\tA string\n\tN int\n}\n\ntype Kind string\n\nconst KindOne Kind = \"one\"\n" % n)
