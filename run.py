#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough]  - runs one check (see DESIGN.md)."""
import os, sys
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
want = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": repo + ":" + os.path.join(here, "lib") + ":" + os.path.join(here, "checks"),
        "NUMBA_DISABLE_JIT": "1", "TZ": "UTC"}
if any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), pid, tier])
import importlib, traceback
sys.path[:0] = [repo, os.path.join(here, "lib"), os.path.join(here, "checks")]
mod_name = [f[:-3] for f in sorted(os.listdir(os.path.join(here, "checks"))) if f.lower().startswith(pid.lower()) and f.endswith(".py")][0]
if pid not in ("C26",):
    sys.modules["openquake"] = None      # optional dependency with a very slow import; only C26 needs it
import vh
try:
    mod = importlib.import_module(mod_name)
    run = vh.Run(pid, tier)
    try:
        mod.main(run)
    except (vh.MachineryError, MemoryError, OSError, SyntaxError, NameError):
        raise
    except Exception as e:      # the code under test answered with something the driver cannot even observe
        traceback.print_exc()
        run.violation("observation impossible: " + type(e).__name__, traceback.format_exc()[-3000:])
    rc = run.finish()
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
