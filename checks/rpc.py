"""C01-C06, C09-C11, C25: recorded behaviour of clients and proxies against spec/Rpc.tla."""
import random
import rt, work
from work import SEED, THOROUGH

# property -> (aspects of the specification that decide it, families of scenarios, group size)
PLAN = {
    "C01": (["route"], ["routing"]),
    "C02": (["args", "rets"], ["fidelity"]),
    "C03": (["route", "args", "rets", "err", "wire", "hdr", "stats", "mon", "sess"], ["conc"]),
    "C04": (["err"], ["failures"]),
    "C05": (["wire", "args", "rets"], ["wire"]),
    "C06": (["hdr"], ["headers"]),
    "C09": (["stats"], ["outcomes"]),
    "C10": (["sess", "args"], ["sessions"]),
    "C11": (["mon"], ["outcomes", "sessions"]),
    "C25": (["route", "args"], ["bodies"]),
}


MC = "SPECIFICATION MCSpec\nCONSTANT Small = %s\nCONSTANT Svcs <- MCSvcs\nCONSTANT Focus <- MCFocus\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
INVS = {p: p for p in PLAN if p != "C03"}
REACH = ["ReachOk", "ReachTaken", "ReachRaw", "ReachBad", "ReachLost"]


def groups_of(cases, rnd, size, tag):
    rnd.shuffle(cases)
    for i, c in enumerate(cases):
        c["id"], c["seed"] = "%s%d" % (tag, i), rnd.getrandbits(40)
    return [{"cases": cases[i:i + size]} for i in range(0, len(cases), size)]


def conc_groups(d, rnd):
    sched = rt.cases(d, "RpcSched", "sched")
    pairs = rt.cases(d, "RpcSched", "pairs")
    trios = rt.cases(d, "RpcSched", "trios")
    groups, n = [], 0
    def group(cs, vary=False, **kw):
        nonlocal n
        out = []
        for c in cs:
            c = dict(c, id="q%d" % n, seed=rnd.getrandbits(40))
            if vary and c["kind"] == "raw":
                # no two requests are alike
                c["tag"] = "X%d" % n
                if c["ct"] == "text/plain":
                    c["ct"] = "text/plain; n=%d" % n
            n += 1
            out.append(c)
        groups.append(dict(cases=out, par=True, **kw))
    todo = [(p, s) for p in pairs for s in sched if s["n"] == 2] + [(p, s) for p in trios for s in sched if s["n"] == 3]
    rnd.shuffle(todo)
    for p, s in todo[:60000 if THOROUGH else 2000]:
        group(p["cases"], sched=s["word"])
    # unscheduled crowds
    singles = [c for p in pairs for c in p["cases"]]
    for _ in range(2000 if THOROUGH else 150):
        group([rnd.choice(singles) for _ in range(rnd.choice([4, 8, 16]))])
    large = len(groups)
    raws = [c for c in singles if c["kind"] == "raw" and c["body"] == "ok"]
    for size in [200, 64, 128] * (20 if THOROUGH else 1):
        group([rnd.choice(raws if size == 200 else singles) for _ in range(size)], vary=True)
    # the first calls of a process are the ones of a crowd
    return groups[large:] + groups[:large]


def report(ctx, groups, traces, verdict):
    bad = [(i, n) for i, n in enumerate(verdict) if n is not None]
    for i, n in bad[:50]:
        ev = traces[i]["ev"][n - 1]
        k = ev.get("k")
        case = [c for c in groups[i]["cases"] if c["id"] == k] or groups[i]["cases"][:1]
        before = [e for e in traces[i]["ev"][:n - 1] if e.get("k") in (k, None)]
        ctx.violation("event not allowed by the specification: %s; scenario %s" % (str(ev)[:700], brief(case[0])),
                      dict(sig=None, event=ev, case=case[0], behaviour=before, group=groups[i]))
    return bad


def brief(c):
    return {k: v for k, v in c.items() if v not in ("none", "nil", "", [], "default", "exact", "ok") and k not in ("id", "pos")}


def racing(ctx, d, groups):
    """the specification takes every step of a call for one that no other call can see half done"""
    binary = work.go_build(d, "./cmd/rpc", d + "/race.bin", race=True)
    crowds = [g for g in groups if len(g["cases"]) > 32][:6]
    rest = [g for g in groups if g not in crowds]
    picked = crowds + rest[:6000 if THOROUGH else 300] + rest[-30:]
    out = rt.drive(binary, d, picked, race=True)
    ctx.cover(race_detected_groups=len(picked))
    reports = out.split("WARNING: DATA RACE")[1:]
    for r in reports[:20]:
        ctx.violation("two calls meet in the same memory:\n" + r.split("==================")[0][:2500],
                      dict(sig=None, race=r[:6000], group=groups[0]))


def check(pid, ctx, replay):
    focus, families = PLAN[pid]
    d = work.scratch()
    # the specification itself: its step rules add up to what the property promises of a whole call
    mc = lambda small, inv: MC % (small, inv)
    ctx.tlc(work.tlc_ok("MCRpc", mc("FALSE" if THOROUGH else "TRUE", INVS.get(pid, "C01 C02 C04 C05 C06 C09 C10 C11 C25")), d + "/mc"))
    if THOROUGH:
        for i, v in enumerate(REACH):
            if "is violated" not in work.tlc("MCRpc", mc("TRUE", v), d + "/mc%d" % i).out:
                raise work.CheckError("MCRpc is vacuous: %s is never reached" % v)
    binary = rt.build_fixture(d)
    if replay:
        groups = [replay["group"]] * 20
    else:
        groups = []
        for j, fam in enumerate(families):
            rnd = random.Random("%d/%s" % (SEED, fam))
            if fam == "conc":
                groups += conc_groups(d, rnd)
                continue
            cs = rt.cases(d, "RpcCases", fam)
            ctx.cover(scenarios=len(cs))
            for rep in range(12 if THOROUGH else 1):
                groups += groups_of([dict(c) for c in cs], rnd, rnd.choice([4, 8, 16]) if rep else 8, "abcdefghijklm"[rep] + "xyz"[j])
    states = 0
    for i in range(0, len(groups), 8000):
        part = groups[i:i + 8000]
        rt.drive(binary, d, part)
        traces = work.jload(d + "/traces.json")
        verdict, st, tr = rt.judge(d, traces, focus)
        ctx.cover(states=st, transitions=tr, traces=len(traces), calls=sum(len(g["cases"]) for g in part))
        for t in traces[:2]:
            ctx.sample(t["ev"][:14])
        report(ctx, part, traces, verdict)
    if pid == "C03" and not (replay and "race" not in replay):
        racing(ctx, d, conc_groups(d, random.Random("%d/conc" % SEED)) if replay else groups)
