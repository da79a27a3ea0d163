"""Renders service packages (signature tables) as Go source: the service declaration, a recording
implementation, and a registry entry that the drivers use.  The tables are the single source of the
expected signatures; nothing here looks at generated code."""


def sig(args, rets, sess=False, unnamed_rets=True):
    a = []
    if sess:
        a += ["w http.ResponseWriter", "r *http.Request"]
    a += ["%s %s" % (n, t) for n, t in args]
    r = ["%s %s" % (n, t) if n else t for n, t in rets]
    ret = ""
    if len(r) == 1 and not rets[0][0]:
        ret = " " + r[0]
    elif r:
        ret = " (" + ", ".join(r) + ")"
    return "(" + ", ".join(a) + ")" + ret


def impl_body(svc, m):
    args = ", ".join(n for n, _ in m["args"])
    w, r = ("w", "r") if m.get("sess") else ("nil", "nil")
    call = 'vh.Call(%s, "%s", "%s", %s, %s, []interface{}{%s})' % ("s__.Hook", svc, m["name"], w, r, args)
    if not m["rets"]:
        return "{ %s }" % call
    rs = ", ".join("vh.Ret[%s](rs__, %d)" % (t, i) for i, (_, t) in enumerate(m["rets"]))
    return "{ rs__ := %s; return %s }" % (call, rs)


def norm_method(m):
    m.setdefault("sess", False)
    m["args"] = [tuple(x) for x in m.get("args", [])]
    m["rets"] = [tuple(x) for x in m.get("rets", [])]
    return m


def render_service(s):
    """declaration text of a service (interface, or struct with pointer receiver methods)"""
    out = []
    if s["kind"] == "iface":
        out.append("type %s interface {" % s["name"])
        for m in s["methods"]:
            out.append("\t%s%s" % (m["name"], sig(m["args"], m["rets"], m["sess"])))
        out.append("}")
    else:
        out.append("type %s struct { Hook vh.Hook }" % s["name"])
        for m in s["methods"]:
            out.append("func (s__ *%s) %s%s %s" % (s["name"], m["name"], sig(m["args"], m["rets"], m["sess"]),
                                               impl_body(s["name"], m)))
    return "\n".join(out) + "\n"


def render_impl(s):
    if s["kind"] != "iface":
        return ""
    out = ["type %sImpl struct { Hook vh.Hook }" % s["name"]]
    for m in s["methods"]:
        out.append("func (s__ *%sImpl) %s%s %s" % (s["name"], m["name"], sig(m["args"], m["rets"], m["sess"]),
                                                 impl_body(s["name"], m)))
    return "\n".join(out) + "\n"


def render_reg(pkgname, pkgpath, services):
    """registry file of the package (the only file that mentions generated identifiers)"""
    o = ["package %s" % pkgname, "", 'import (', '\t"crypto/tls"', '\t"net/http"', '\t"reflect"', '\t"example.com/fx/h"', '@@IMPORTS@@', ')',
         "var _ = reflect.TypeOf", "var _ tls.Config", "var _ http.Handler", "@@USES@@"]
    o.append("var Services = []*h.Service{")
    for s in services:
        n = s["name"]
        inst = "&%sImpl{hook}" % n if s["kind"] == "iface" else "&%s{hook}" % n
        o.append('\t{Name: "%s", Pkg: "%s", Endpoint: "%s",' % (n, pkgpath, s["ep"]))
        if s.get("http", True):
            o.append("\t\tNewProxy: func(hook h.Hook) http.Handler { return NewDefault%sGoTSRPCProxy(%s) }," % (n, inst))
            o.append("\t\tNewProxyAt: func(hook h.Hook, ep string) http.Handler { return New%sGoTSRPCProxy(%s, ep) }," % (n, inst))
        if s.get("client", True):
            o.append("\t\tNewClient: func(url string, c *http.Client) interface{} { x := NewDefault%sGoTSRPCClient(url); if c != nil { x.Client.SetTransportHttpClient(c) }; return x }," % n)
            o.append("\t\tNewClientAt: func(url, ep string, c *http.Client) interface{} { return New%sGoTSRPCClientWithClient(url, ep, c) }," % n)
        if s.get("gorpc"):
            o.append("\t\tNewGoRPCProxy: func(addr string, hook h.Hook, t *tls.Config) interface{} { return New%sGoRPCProxy(addr, %s, t) }," % (n, inst))
            o.append("\t\tNewGoRPCClient: func(addr string, t *tls.Config) interface{} { return New%sGoRPCClient(addr, t) }," % n)
        o.append("\t\tMethods: []*h.Method{")
        for m in s["methods"]:
            tl = lambda ps: ", ".join("reflect.TypeOf((*%s)(nil)).Elem()" % t for _, t in ps)
            o.append('\t\t\t{Name: "%s", Session: %s, Args: []reflect.Type{%s}, Rets: []reflect.Type{%s}},' % (
                m["name"], "true" if m["sess"] else "false", tl(m["args"]), tl(m["rets"])))
        o.append("\t\t},\n\t},")
    o.append("}")
    return "\n".join(o) + "\n"
