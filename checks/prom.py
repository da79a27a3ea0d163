"""C15: the growth of the prometheus registry against spec/Prom.tla."""
import random
import rt, rtfix, work
from work import SEED, THOROUGH, jload

CFG = "SPECIFICATION TraceSpec\nCONSTANT Svcs <- MCSvcs\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"


def check(pid, ctx, replay):
    rnd = random.Random("%d/prom" % SEED)
    d = work.scratch()
    env = rtfix.env()
    binary = rt.build_fixture(d, cmd="prom")
    if replay:
        groups = [replay["group"]]
    else:
        cs, groups = rt.cases(d, "PromCases", "all", env), []
        for _ in range(15 if THOROUGH else 2):
            rnd.shuffle(cs)
            for i in range(0, len(cs), 20):
                groups.append(dict(par=rnd.random() < .3, cases=[
                    dict(c, seed=rnd.getrandbits(40), nap=rnd.choice([0, 0, 0, 0, 0, 0, 500, 3000])) for c in cs[i:i + 20]]))
    rt.drive(binary, d, groups)
    traces = jload(d + "/traces.json")
    verdict, st, tr = rt.judge(d, traces, [], module="TraceProm", cfg=CFG, env=dict(svcs=env))
    ctx.cover(states=st, transitions=tr, traces=len(traces), requests=sum(len(g["cases"]) for g in groups))
    for t in traces[1:3]:
        ctx.sample(t["ev"][:8])
    for i, k in enumerate(verdict):
        if k is not None:
            evs = traces[i]["ev"]
            ctx.violation("not allowed by the specification: %s" % str(evs[max(0, k - 3):k])[:1500],
                          dict(sig=None, group=groups[i - 1] if i else None, behaviour=evs[:k]))
