#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: decides one property for /repo's working tree."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import work
from report import Ctx

CHECKS = {}
for pid, mod in dict(C01="rpc", C02="rpc", C03="rpc", C04="rpc", C05="rpc", C06="rpc", C09="rpc", C10="rpc", C11="rpc",
                     C25="rpc", C07="errs", C08="errs", C12="times", C13="unions", C14="gorpc", C15="prom", C17="graph", C18="tstypes", C24="enums", C16="builds", C21="builds", C22="dirs", C23="confs", C20="services", C19="services").items():
    CHECKS[pid] = mod


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    ctx = Ctx(pid)
    mod = importlib.import_module(CHECKS[pid])
    error = None
    try:
        mod.check(pid, ctx, work.jload(replay) if replay else None)
    except work.RealViolation as x:
        ctx.violation(str(x), dict(detail=str(x), sig=None))
    except work.CheckError as x:
        error = str(x)
    except Exception:
        error = traceback.format_exc()
    return ctx.finish("model_checking", error)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
