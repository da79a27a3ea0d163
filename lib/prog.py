"""Renders generated programs (packages of types, services, configuration) as Go modules."""
import os, re
import work
from work import write, run
from goprog import sig, norm_method, render_service, render_impl, render_reg

STD = dict(http="net/http", time="time", vh="example.com/gx/h")


def gofile(pkg, body, aliases):
    """a Go file with the imports its body needs; aliases: name -> import path"""
    al = dict(STD)
    al.update(aliases)
    used = sorted(a for a in al if re.search(r"(?<![\w.\"])%s\.[A-Z\u00dc]" % re.escape(a), body))
    imp = "".join('\t%s "%s"\n' % (a, al[a]) for a in used)
    return "package %s\n\n%s%s" % (pkg, "import (\n%s)\n\n" % imp if imp else "", body)


def gotype(t, cur, alias):
    """t: type expression; cur: the package it is written in; alias: package path -> name"""
    k = t["k"]
    if k == "prim":
        return t["n"]
    if k == "iface":
        return "interface{}"
    if k == "error":
        return "error"
    if k == "time":
        return "time.Time"
    if k == "ref":
        return t["n"] if t["p"] == cur else alias(t["p"]) + "." + t["n"]
    if k == "ptr":
        return "*" + gotype(t["e"], cur, alias)
    if k == "slice":
        return "[]" + gotype(t["e"], cur, alias)
    if k == "map":
        return "map[%s]%s" % (gotype(t["key"], cur, alias), gotype(t["e"], cur, alias))
    if k == "anon":
        return "struct {\n%s}" % fields(t["fields"], cur, alias)
    raise ValueError(t)


def fields(fs, cur, alias):
    out = ""
    for f in fs:
        tag = []
        if f.get("json") is not None:
            tag.append('json:"%s"' % f["json"])
        if f.get("gt"):
            tag.append('gotsrpc:"%s"' % f["gt"])
        ty = gotype(f["t"], cur, alias)
        out += "\t%s%s%s\n" % ("" if f.get("emb") else f["n"] + " ", ty, " `%s`" % " ".join(tag) if tag else "")
    return out


def decl(dl, cur, alias):
    k = dl["k"]
    if k == "struct":
        return "type %s struct {\n%s}\n" % (dl["n"], fields(dl["fields"], cur, alias))
    if k == "def":   # any other definition: type N <expr>
        return "type %s %s\n" % (dl["n"], gotype(dl["t"], cur, alias))
    if k == "const":
        return "const %s %s = %s\n" % (dl["n"], dl["t"], dl["v"])
    if k == "raw":
        return dl["text"] + "\n"
    raise ValueError(dl)


def yml(conf):
    """configuration text; conf: dict(module, targets, mappings) in plain data"""
    import json
    return json.dumps(conf, indent=1)   # JSON is YAML


def copy_h(d, mod="example.com/gx"):
    src = os.path.join(work.VERIF, "rt/h")
    for f in os.listdir(src):
        if f.endswith(".go"):
            write(os.path.join(d, "h", f), open(os.path.join(src, f)).read().replace("example.com/fx", mod))


def copy_cmd(d, cmd, mod="example.com/gx"):
    src = os.path.join(work.VERIF, "rt/cmd", cmd)
    for f in os.listdir(src):
        if f.endswith(".go"):
            write(os.path.join(d, "cmd", cmd, f), open(os.path.join(src, f)).read().replace("example.com/fx", mod))


def generate(cli, d, timeout=120, conf="gotsrpc.yml"):
    return run([cli, conf], cwd=d, timeout=timeout, env=dict(work.goenv(), HOME=d + "/home", XDG_CONFIG_HOME="/root/.config"))
