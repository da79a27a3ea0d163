"""C07, C08: error chains through a service and back against spec/ErrChain.tla."""
import random
import rt, rtfix, work
from work import SEED, THOROUGH

FOCUS = {"C07": ["text"], "C08": ["match"]}


def check(pid, ctx, replay):
    d = work.scratch()
    binary = rt.build_fixture(d, cmd="errs", services=[rtfix.ERRS], more=["other/svc"])
    rnd = random.Random("%d/errs" % SEED)
    if replay:
        cases = [replay["case"]]
    else:
        short, two, three, deep = (rt.cases(d, "ErrCases", f) for f in ("short", "two", "three", "deep"))
        if THOROUGH:
            four = rt.cases(d, "ErrCases", "four")
            cases = [c for _ in range(6) for c in short] + [c for _ in range(3) for c in two] + three + rnd.sample(four, 12000) + deep * 3
        else:
            cases = short + two + rnd.sample(three, 700) + deep
        cases = [dict(c, id=str(i), seed=rnd.getrandbits(40)) for i, c in enumerate(cases)]
    for i in range(0, len(cases), 8000):
        part = cases[i:i + 8000]
        rt.drive(binary, d, part)
        traces = work.jload(d + "/traces.json")
        verdict, st, tr = rt.judge(d, traces, FOCUS[pid], module="TraceErr", env=dict(focus=FOCUS[pid]),
                                   cfg="SPECIFICATION TraceSpec\nCONSTANT Focus <- MCFocus\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n")
        ctx.cover(states=st, transitions=tr, traces=len(traces), observations=sum(len(t["ev"]) for t in traces))
        for t in traces[:2]:
            ctx.sample(t["ev"][:8])
        for j, n in enumerate(verdict):
            if n is not None:
                c, evs = part[j], traces[j]["ev"]
                ctx.violation("error chain %s: not allowed by the specification: %s" % (
                    [c["res"], c["leaf"]] + c["wraps"], str(evs[n - 1])[:600] if n <= len(evs) else "end"),
                    dict(sig=None, case=c, behaviour=evs[:n]))
