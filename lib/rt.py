"""The run-time harness: builds the fixture, drives recorded calls through the real code and has TLC
decide whether each recorded behaviour is one of spec/Rpc.tla."""
import re, os, random, shutil
import work, rtfix
from work import VERIF, run, write, jdump, jload, CheckError, RealViolation, Timeout, THOROUGH
from goprog import render_service, render_impl, render_reg

HEAD = 'package svc\nimport (\n"net/http"\n"time"\n"example.com/fx/dep"\nvh "example.com/fx/h"\n)\n' \
       'var _ http.Handler\nvar _ dep.Kind\nvar _ vh.Hook\nvar _ time.Time\n'


def copy_rt(d, *subs):
    for sub in subs:
        src = os.path.join(VERIF, "rt", sub)
        for f in os.listdir(src):
            if f.endswith(".go"):
                write(os.path.join(d, sub, f), open(os.path.join(src, f)).read())


def build_fixture(d, cmd="rpc", services=rtfix.SERVICES, race=False, cli=None, more=()):
    work.new_module(d)
    cli = cli or work.build_cli(d)
    copy_rt(d, "h", "svc", "dep", "cmd/" + cmd, *more)
    write(d + "/svc/services.go", HEAD + "\n".join(render_service(s) for s in services))
    write(d + "/svc/impl.go", HEAD + "\n".join(render_impl(s) for s in services))
    write(d + "/svc/reg.go", render_reg("svc", "example.com/fx/svc", services).replace(
        "@@IMPORTS@@", '"time"\n"example.com/fx/dep"').replace("@@USES@@", "var _ time.Time\nvar _ dep.Kind\n"))
    gorpc = [s["name"] for s in services if s.get("gorpc")]
    yml = "module:\n  name: example.com/fx\n  path: .\ntargets:\n  svc:\n    package: example.com/fx/svc\n" \
          "    out: ts/client.ts\n    services:\n" + \
          "".join("      %s: %s\n" % (s["ep"], s["name"]) for s in services) + \
          "    tsrpc: [%s]\n" % ", ".join(s["name"] for s in services if s.get("http", True)) + \
          ("    gorpc: [%s]\n" % ", ".join(gorpc) if gorpc else "") + \
          "mappings:\n  example.com/fx/svc:\n    out: ts/svc.ts\n  example.com/fx/dep:\n    out: ts/dep.ts\n" \
          "  time:\n    out: ts/time.ts\n"
    write(d + "/gotsrpc.yml", yml)
    p = run([cli, "gotsrpc.yml"], cwd=d)
    if p.returncode != 0:
        raise RealViolation("generation of the fixture fails:\n" + p.stdout[-2000:])
    return work.go_build(d, "./cmd/" + cmd, os.path.join(d, cmd + ".bin"), race=race)


def cases(d, module, family, env=None):
    """has TLC enumerate the scenarios of a family"""
    td = os.path.join(d, "gen-" + family)
    jdump(td + "/env.json", dict(svcs=env or rtfix.env(), focus=[], family=family))
    work.tlc_ok(module, "INIT Init\nNEXT Next\n", td)
    c = jload(td + "/cases.json")
    c.sort(key=lambda x: sorted((k, str(v)) for k, v in x.items()))
    return c


def drive(binary, d, groups, timeout=None, race=False):
    """-> output; the driver reads groups.json and writes traces.json"""
    jdump(d + "/groups.json", groups)
    timeout = timeout or (3600 if THOROUGH else 400)
    try:
        p = run([binary, "groups.json", "traces.json"], cwd=d, timeout=timeout, **({"env": dict(work.goenv(), GORACE="exitcode=0")} if race else {}))
    except Timeout:
        raise RealViolation("the recorded calls do not come to an end within %d s" % timeout)
    if p.returncode != 0:
        if p.returncode == 3:
            raise RealViolation("driver: " + p.stdout[-3000:])
        # the code under test brought the process down
        crash = re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds)", p.stdout, re.M)
        if crash and re.search(r"^github\.com/foomo/gotsrpc/v2[./]", p.stdout[crash.start():], re.M):
            raise RealViolation("crash: " + p.stdout[crash.start():][:3000])
        raise CheckError("driver failed (%d): %s" % (p.returncode, p.stdout[-3000:]))
    return p.stdout


TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTANT Svcs <- MCSvcs\nCONSTANT Focus <- MCFocus\nCONSTRAINT Progress\n" \
            "POSTCONDITION Verdict\n"


def judge(d, traces, focus, module="TraceRpc", cfg=TRACE_CFG, env=None, timeout=900):
    """-> (number of the first event not explained or None per trace, states, transitions)"""
    td = os.path.join(d, "judge")
    shutil.rmtree(td, ignore_errors=True)
    jdump(td + "/env.json", env or dict(svcs=rtfix.env(), focus=focus, family=""))
    res, states, trans = [], 0, 0
    for i in range(0, len(traces), 4000):
        part = traces[i:i + 4000]
        jdump(td + "/traces.json", part)
        r = work.tlc(module, cfg, td, workers=1, timeout=timeout)
        if r.rc != 0:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-5000:]))
        v = jload(td + "/verdict.json")
        if len(v) != len(part):
            raise CheckError("TLC judged %d of %d traces" % (len(v), len(part)))
        res += [None if n == len(t["ev"]) + 1 else n for n, t in zip(v, part)]
        states += r.distinct
        trans += r.generated
    return res, states, trans
