import importlib
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# what the code under test prints goes nowhere: stdout is for the verdict
REAL = os.fdopen(os.dup(1), "w")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
import vp  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = vp.Check(pid, tier, seed)
    signal.signal(signal.SIGALRM, vp._alarm)
    signal.alarm(800 if tier == "quick" else 6 * 3600)
    try:
        mod = importlib.import_module(f"p_{pid}")
        mod.run(ck)
    except vp.MachineryError:
        traceback.print_exc()
        if not ck.violations:
            sys.exit(2)
    except Exception as e:
        if not vp.from_code(e):
            traceback.print_exc()
            if not ck.violations:
                sys.exit(2)
        else:
            ck.violation(f"raised {type(e).__name__}", {"exception": vp.short_exc(e)})
    signal.alarm(0)
    sys.stdout.flush()
    code = ck.finish(REAL)
    REAL.flush()
    sys.exit(code)


main()
