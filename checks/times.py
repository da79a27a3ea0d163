"""C12: times through a service and back against spec/TimeCodec.tla."""
import random
import rt, rtfix, work
from work import SEED, THOROUGH

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n"


def check(pid, ctx, replay):
    d = work.scratch()
    ctx.tlc(work.tlc_ok("MCTime", "SPECIFICATION MCSpec\nINVARIANT RoundTrip\n", d + "/mc"))
    binary = rt.build_fixture(d, cmd="times", services=[rtfix.CLOCK])
    rnd = random.Random("%d/times" % SEED)
    if replay:
        cases = [replay["case"]]
    else:
        cases = rt.cases(d, "TimeCases", "positions")
        inst = rt.cases(d, "TimeCases", "instants")
        cases += inst if THOROUGH else rnd.sample(inst, 5000)
        rnd.shuffle(cases)
    for i in range(0, len(cases), 8000):
        part = cases[i:i + 8000]
        rt.drive(binary, d, part)
        traces = work.jload(d + "/traces.json")
        verdict, st, tr = rt.judge(d, traces, [], module="TraceTime", cfg=CFG)
        ctx.cover(states=st, transitions=tr, traces=len(traces))
        for t in traces[:2]:
            ctx.sample(t["ev"])
        for c, t, n in zip(part, traces, verdict):
            if n is not None:
                ev = t["ev"]
                ctx.violation("time %s zone %s at %s of %s argument %d (%s%s): not allowed by the specification: %s" % (
                    c["t"], c["zone"], c["path"], c["m"], c["a"], c["enc"], ", raw" if c["raw"] else "",
                    str(ev[n - 1])[:400] if n <= len(ev) else "end"), dict(sig=None, case=c, behaviour=ev))
