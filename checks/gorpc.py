"""C14: recorded behaviour of GoRPC clients and servers against spec/GoRpc.tla."""
import random, re
import rt, rtfix, work
from work import SEED, THOROUGH, jload

CFG = "SPECIFICATION TraceSpec\nCONSTANT Svcs <- MCSvcs\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"
MC = "SPECIFICATION Spec\nCONSTANT Svcs <- MCSvcs\nINVARIANTS AtMostOneRun NoResultWithoutRun NoStatWithoutRun FailedOnlyByFault\n"


def check(pid, ctx, replay):
    rnd = random.Random("%d/gorpc" % SEED)
    d = work.scratch()
    ctx.tlc(work.tlc_ok("MCGoRpc", MC, d + "/mc"))
    svcs = [s for s in rtfix.GORPC if s.get("gorpc")]
    env = rtfix.env(svcs)
    binary = rt.build_fixture(d, cmd="gorpc", services=rtfix.GORPC, race=True)
    fam = {f: rt.cases(d, "GoRpcCases", f, env) for f in ("single", "faulty", "orders")}
    groups, n = [], 0

    def group(cs, **kw):
        nonlocal n
        out, quiet = [], {}
        for c in cs:
            # calls that look alike to the implementation: the specification tries all ways to match them
            if kw.get("par") and (c["prof"] == "zero" or env[c["svc"]]["ms"][c["m"]]["nargs"] == 0):
                quiet[c["m"]] = quiet.get(c["m"], 0) + 1
                if quiet[c["m"]] > 3:
                    continue
            out.append(dict(c, id="k%d" % n, seed=rnd.getrandbits(40)))
            n += 1
        if kw.get("order"):
            kw["order"] = [i for i in kw["order"] if i <= len(out)]
        groups.append(dict(cases=out, tls=cs[0]["tls"], stats=cs[0]["stats"], **kw))
    if replay:
        groups = [replay["group"]] * 10
    else:
        by = {}
        for c in fam["single"]:
            by.setdefault((c["svc"], c["tls"], c["stats"]), []).append(c)
        for cs in by.values():
            for _ in range(6 if THOROUGH else 1):
                rnd.shuffle(cs)
                for i in range(0, len(cs), 12):
                    group(cs[i:i + 12], par=False)
                    group(cs[i:i + 12], par=True)
        keys = sorted(by)
        for o in (o for _ in range(20 if THOROUGH else 2) for o in fam["orders"]):
            cs = by[rnd.choice(keys)]
            same = rnd.random() < .5
            c = rnd.choice(cs)
            group([c if same else rnd.choice(cs) for _ in o["order"]], par=True, order=o["order"])
        for _ in range(60 if THOROUGH else 6):   # crowds
            cs = by[rnd.choice(keys)]
            group([rnd.choice(cs) for _ in range(64)], par=True)
        for c in fam["faulty"] if THOROUGH else rnd.sample(fam["faulty"], 24) + [c for c in fam["faulty"] if c["fault"][0] == "u"]:
            group([c], par=False)
    out = rt.drive(binary, d, groups, race=True)
    for r in out.split("WARNING: DATA RACE")[1:]:
        r = r.split("==================")[0]
        # where the two accesses are: the library for the connections is not part of the system
        tops = re.findall(r"^(?:Previous )?(?:[Rr]ead|[Ww]rite) at .*\n(?:  (?:runtime|sync/atomic|reflect)\..*\n.*\n)*  (.*)", r, re.M)
        if any(re.match(r"example\.com/fx/svc\.\(\*\w+GoRPC(Proxy|Client)\)|github\.com/foomo/gotsrpc/v2\.", t) for t in tops):
            ctx.violation("two calls meet in the same memory:\n" + r[:2500], dict(sig=None, race=r[:6000], group=groups[0]))
            break
    traces = jload(d + "/traces.json")
    verdict, st, tr = rt.judge(d, traces, [], module="TraceGoRpc", cfg=CFG, env=dict(svcs=env))
    ctx.cover(states=st, transitions=tr, traces=len(traces), calls=n)
    for t in traces[:2]:
        ctx.sample(t["ev"][:12])
    for i, k in enumerate(verdict):
        if k is not None:
            evs = traces[i]["ev"]
            ctx.violation("event not allowed by the specification: %s" % (str(evs[k - 1])[:700] if k <= len(evs) else "end"),
                          dict(sig=None, group=groups[i] if i < len(groups) else groups[-1], behaviour=evs[:k]))
