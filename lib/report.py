"""Evidence, replays, known findings and verdict lines of a check."""
import json, os, sys, time
from work import VERIF, SEED, TIER, jdump, jload


class Ctx:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.violations, self.known = [], {}
        p = os.path.join(VERIF, "findings.json")
        self.findings = [f for f in (jload(p) if os.path.exists(p) else []) if f["property"] == pid and f["status"] == "known"]

    def cover(self, states=0, transitions=0, traces=0, **extra):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        for k, v in extra.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, int) else v

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def tlc(self, r):
        self.cover(states=r.distinct, transitions=r.generated)

    def violation(self, what, replay):
        """what: one line; replay: everything needed to look at it and run it again.  A violation whose
        'sig' is the one of a listed finding is reported as that finding."""
        sig = replay.get("sig")
        for f in self.findings:
            if sig is not None and sig in f["sigs"]:
                self.known.setdefault(f["id"], (f, what))
                return
        self.violations.append((what, replay))

    def finish(self, level, error=None):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  known_findings=sorted(self.known), notes=self.notes)
        jdump(os.path.join(d, self.pid + ".json"), ev)
        for fid, (f, what) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, f["what"]))
        rd = os.path.join(d, "replay", self.pid)
        for i, (what, replay) in enumerate(self.violations[:int(os.environ.get("VERIF_SHOW", 5))]):
            p = os.path.join(rd, "%d.json" % i)
            jdump(p, dict(property=self.pid, what=what, seed=SEED, tier=TIER, **replay))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + what[:1500])
        if len(self.violations) > 5 and "VERIF_SHOW" not in os.environ:
            print("  ... and %d more" % (len(self.violations) - 5))
        if self.violations:
            return 1
        if error:
            print("CHECK-ERROR property=%s %s" % (self.pid, error))
            return 2
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0
