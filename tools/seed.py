#!/usr/bin/env python3
"""Development aid: tools/seed.py ID [CHECK...]: confirms a planted change (demo passes on the clean tree; with the
patch it builds, the stable tests pass and the demo fails), then runs the property's check (or CHECKs) against it.
tools/seed.py --make ID  turns the current working tree changes of /repo into seeded/ID/patch.diff and reverts them."""
import json, os, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def demo(d): return sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
a = sys.argv[1:]
if a[0] == "--make":
    d = "%s/seeded/%s" % (V, a[1]); os.makedirs(d, exist_ok=True)
    p = sh("git -C /repo diff").stdout
    assert p, "no change"
    open(d + "/patch.diff", "w").write(p)
    print(sh("git -C /repo checkout -- . && git -C /repo status --short").stdout, p)
    sys.exit()
i, checks = a[0], a[1:]
d = "%s/seeded/%s" % (V, i)
meta = json.load(open(d + "/meta.json"))
assert not sh("git -C /repo status --short").stdout, "dirty /repo"
r = demo(d); print("clean demo", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
p = sh("git -C /repo apply %s/patch.diff" % d); assert p.returncode == 0, p.stdout
try:
    r = sh("bash /opt/vp/build.sh"); print("build", r.returncode)
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/seed-out.json"))
    def names(x, k): return set(x.get(k, []))
    st = set(base.get("stable_passing") or base.get("passing") or base.get("passed") or base.get("stable") or [])
    ps = set(out.get("passed") or out.get("passing") or [])
    print("tests: %d stable, %d pass, missing %s" % (len(st), len(ps), sorted(st - ps)))
    r = demo(d); print("patched demo", r.returncode, r.stdout[-600:])
    for c in checks if checks else [meta["property"]]:
        if c == "-": break
        r = sh("python3 run.py %s" % c, cwd=V, timeout=1000)
        print("check", c, r.returncode, r.stdout[:700])
finally:
    print(sh("git -C /repo checkout -- . && git -C /repo status --short").stdout)
