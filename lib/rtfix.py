"""The runtime fixture: the services the run-time properties are checked on."""
from goprog import norm_method

def M(name, args=(), rets=(), sess=False):
    a = [tuple(x.split(" ", 1)) for x in args]
    r = []
    for x in rets:
        if x.startswith(":"):
            r.append(tuple(x[1:].split(" ", 1)))
        else:
            r.append(("", x))
    return norm_method(dict(name=name, args=a, rets=r, sess=sess))

ALPHA = dict(name="Alpha", kind="iface", ep="/svc/alpha", gorpc=False, methods=[
    M("Nothing"),
    M("Ping", [], ["string"]),
    M("Get", ["key string"], ["string"]),
    M("GetAll", ["a string", "b string"], ["string", "string"]),
    M("GetAllOf", ["prefix string", "n int64", "list []string"], [":list2 []string", ":n2 int64", ":prefix2 string"]),
    M("Set", ["key string", "val string"], []),
    M("Reset", ["key string"], [":old string", ":ok bool"]),
    M("Svc", ["a string"], ["string"]),
    M("Alpha", ["a int64", "b string"], ["string"]),
    M("Kinds", ["a bool", "b int8", "c int32", "d int64", "e uint16", "f uint64", "g float32", "h float64", "i string"],
      ["string", "float64", "float32", "uint64", "uint16", "int64", "int32", "int8", "bool"]),
    M("Coll", ["bs []byte", "ss []string", "m map[string]int64", "mm map[string][]string"],
      ["map[string][]string", "map[string]int64", "[]string", "[]byte"]),
    M("Obj", ["p Person", "pp *Person", "ps []*Person", "pm map[string]Person"],
      ["map[string]Person", "[]*Person", "*Person", "Person"]),
    M("Deeper", ["d Deep", "t Table", "n Names"], [":deep *Deep", ":names Names", ":table Table"]),
    M("Dep", ["d dep.Item", "k dep.Kind", "ks []dep.Kind"], ["*dep.Item", "dep.Kind", "map[dep.Kind]dep.Item"]),
    M("Ptrs", ["s *string", "i *int64", "c *Color"], ["*Color", "*int64", "*string"]),
    M("Free", ["v interface{}", "m map[string]interface{}", "l []interface{}"], ["interface{}", "map[string]interface{}"]),
    M("Try", ["key string"], ["error"]),
    M("TryGet", ["key string", "n int64"], ["string", "error"]),
    M("TryAll", ["key string"], [":val string", ":err error", ":n int64"]),
    M("Typed", ["key string"], ["string", "*Fail"]),
    M("Opaque", ["key string"], ["interface{}"]),
    M("Gated", ["g dep.Gate", "s string"], ["dep.Gate", "string"]),
    M("Sess", ["a string", "n int64"], ["string", "error"], sess=True),
    M("SessNone", [], [], sess=True),
    M("SessGet", [], ["string"], sess=True),
    M("SessPut", ["a string"], [], sess=True),
])
BETA = dict(name="Beta", kind="struct", ep="/svc/alpha/beta", methods=[
    M("Get", ["key int64"], ["int64"]),
    M("GetAll", ["b string"], [":x string"]),
    M("Only", ["a string", "b string", "c string", "d string", "e string"], ["string", "string", "string", "string", "string"]),
    M("Sess", ["a string"], ["string"], sess=True),
    M("SessGated", ["s string", "g dep.Gate"], ["string", "dep.Gate", "error"], sess=True),
    M("Drop"),
])
GAMMA = dict(name="Gamma", kind="iface", ep="/svc", methods=[
    M("Alpha", ["a string"], ["string"]),
    M("Get", ["a string"], ["string"]),
    M("G", ["a string"], ["string"]),
    M("ListOfStrings", ["l []string"], [":r []string"]),
    M("Times", ["t time.Time", "p *time.Time", "l []time.Time", "m map[string]time.Time"],
      ["map[string]time.Time", "[]time.Time", "*time.Time", "time.Time"]),
])
ERRS = dict(name="Errs", kind="iface", ep="/errs", methods=[
    M("One", [], ["error"]),
    M("Mid", [], [":a string", ":err error", ":n int64"]),
    M("Two", [], ["error", "error"]),
    M("PtrT", [], ["*Fail"]),
    M("PtrMid", [], ["string", "*Rich", "[]string"]),
    M("ValT", [], ["ValData"]),
    M("ScalT", [], ["Scalar", "string"]),
    M("NumT", [], ["Num"]),
])
TM, PT = "time.Time", "*time.Time"
CLOCK = dict(name="Clock", kind="iface", ep="/clock", methods=[
    M("T", ["v " + TM], [TM]), M("P", ["v " + PT], [PT]),
    M("L", ["v []" + TM], ["[]" + TM]), M("LP", ["v []" + PT], ["[]" + PT]),
    M("M", ["v map[string]" + TM], ["map[string]" + TM]), M("MP", ["v map[string]" + PT], ["map[string]" + PT]),
    M("Multi", ["a " + TM, "s string", "b " + PT, "l []" + TM], [PT, "string", TM, "[]" + TM]),
    M("Sess", ["t " + TM, "p " + PT], [":t2 " + TM, ":p2 " + PT], sess=True),
    M("NL", ["v TimeList"], ["TimeList"]), M("NM", ["v TimeMap"], ["TimeMap"]),
    M("St", ["v Stamp"], ["Stamp"]), M("PSt", ["v *Stamp"], ["*Stamp"]),
    M("LSt", ["v []Stamp"], ["[]Stamp"]), M("MSt", ["v map[string]Stamp"], ["map[string]Stamp"]),
    M("Box", ["v StampBox"], ["StampBox"]),
])
SERVICES = [ALPHA, BETA, GAMMA]
# GoRPC: without the methods whose values gob or the recording cannot carry
GONLY = dict(name="Omega", kind="struct", ep="/omega", http=False, client=False, gorpc=True, methods=[
    M("A"), M("AB", [], [":a string"]), M("ABC", ["x string"], []), M("Do", ["x string", "y string"], ["string", "string"]),
    M("DoIt", ["y string", "x string"], ["string", "string"]), M("Sess", ["a string", "b []string"], ["[]string", "string"], sess=True),
    M("SessNone", sess=True), M("SessGet", [], [":res *Person", ":err error"], sess=True), M("Err", ["e error", "s string"], ["error", "string", "error"]),
])
GORPC = [dict(ALPHA, gorpc=True, methods=[m for m in ALPHA["methods"] if m["name"] not in ("Gated", "Typed")]),
         dict(BETA, gorpc=True, methods=[m for m in BETA["methods"] if m["name"] != "SessGated"]), dict(GAMMA), GONLY]

def env(services=SERVICES, pkg="example.com/fx/svc"):
    """signature facts the specification is instantiated with"""
    e = {}
    for s in services:
        ms = {}
        for m in s["methods"]:
            ms[m["name"]] = dict(nargs=len(m["args"]), nrets=len(m["rets"]), sess=m["sess"],
                                 errs=[i + 1 for i, (_, t) in enumerate(m["rets"]) if t == "error"],
                                 lasterr=bool(m["rets"]) and m["rets"][-1][1] in ("error", "*Fail"))
        e[s["name"]] = dict(pkg=pkg, ep=s["ep"], ms=ms)
    return e
