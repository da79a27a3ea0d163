"""Scratch modules built against /repo's working tree, and TLC runs."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NODE_MODULES = "/opt/veriftools/node/node_modules"


class CheckError(Exception):
    """the check itself could not decide (exit 2)"""


class Timeout(CheckError):
    pass


class RealViolation(Exception):
    """the real code misbehaved in a way found outside of TLC's validation (e.g. generated code does not compile)"""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT="/opt/veriftools/go1.23.12", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOTELEMETRY="off")
    e["PATH"] = e["GOROOT"] + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, cwd=None, timeout=600, env=None, inp=None, check=False):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise Timeout("timeout after %ss: %s" % (timeout, cmd))
    if check and p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s" % (" ".join(map(str, cmd))[:300], p.returncode, p.stdout[-4000:]))
    return p


_scratch = []


def scratch(prefix="gotsrpc-verif-"):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append(d)
    return d


@atexit.register
def _cleanup():
    if os.environ.get("VERIF_KEEP"):
        if _scratch:
            print("kept", _scratch, file=sys.stderr)
        return
    for d in _scratch:
        if d.startswith(tempfile.gettempdir() + "/gotsrpc-verif-"):
            shutil.rmtree(d, ignore_errors=True)


def build_cli(dest):
    """the generator, built from the working tree"""
    out = os.path.join(dest, "gotsrpc-cli")
    p = run(["go", "build", "-o", out, "./cmd/gotsrpc"], cwd=REPO)
    if p.returncode != 0:
        raise CheckError("cannot build the repository:\n" + p.stdout[-3000:])
    return out


def new_module(d, name="example.com/fx", extra=""):
    """go.mod/go.sum of a scratch module that uses /repo"""
    os.makedirs(d, exist_ok=True)
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod = re.sub(r"^module .*$", "", mod, flags=re.M)
    mod = re.sub(r"^exclude .*$", "", mod, flags=re.M)
    mod = "module %s\n%s\nrequire github.com/foomo/gotsrpc/v2 v2.0.0\nreplace github.com/foomo/gotsrpc/v2 => %s\n%s\n" % (
        name, mod, REPO, extra)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def go_build(d, pkg, out, race=False):
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, pkg]
    p = run(cmd, cwd=d)
    if p.returncode != 0:
        if re.search(r"_gen\.go:\d+", p.stdout):
            raise RealViolation("generated code does not compile:\n" + p.stdout[-3000:])
        raise CheckError("driver does not build:\n" + p.stdout[-4000:])
    return out


# ------------------------------------------------------------------ TLC

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])


def tlc(module, cfg, d, workers="auto", timeout=600, extra=(), props=(), heap="6g"):
    """runs TLC on spec/<module>.tla copied to directory d, with configuration text cfg"""
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    write(os.path.join(d, module + ".cfg"), cfg)
    meta = os.path.join(d, "states-%s-%d" % (module, int(time.time() * 1e6)))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=100000"] + list(props) + \
          ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", module + ".cfg",
           "-noGenerateSpecTE", "-deadlock"] + list(extra) + [module + ".tla"]
    p = run(cmd, cwd=d, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.returncode, p.stdout)


def tlc_ok(module, cfg, d, **kw):
    r = tlc(module, cfg, d, **kw)
    if r.rc != 0:
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
    return r


def jdump(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f)


def jload(path):
    with open(path) as f:
        return json.load(f)
