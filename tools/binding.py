"""binding.py [ids]  - how tightly the trace specifications bind: one recorded field of one event is corrupted per session
(number one higher, flag negated, error added or removed) and TLC judges again.  Prints, per kind of event and field, how many of the
corrupted sessions are rejected.  Fields never rejected are parameters that do not matter or statistical slack."""
import copy, importlib, json, os, random, sys
from collections import defaultdict
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("VERIF_REPO", "/repo")
want = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
        "PYTHONHASHSEED": "0", "PYTHONPATH": repo + ":" + here + "/lib:" + here + "/checks", "NUMBA_DISABLE_JIT": "1", "TZ": "UTC"}
if any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.path[:0] = [repo, here + "/lib", here + "/checks"]
os.environ["VERIF_EVIDENCE"] = "/tmp"
pid = sys.argv[1]
if pid != "C26":
    sys.modules["openquake"] = None
import vh
N = int(os.environ.get("N", "300"))
R = random.Random(7)
log = []


def leaves(v, path=()):
    if isinstance(v, bool) or isinstance(v, int):
        yield path, v
    elif isinstance(v, str) and path[-1] == "err":
        yield path, v
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))


def corrupt(s):
    s = copy.deepcopy(s)
    i = R.randrange(len(s["ev"]))
    by = defaultdict(list)
    for p, v in leaves(s["ev"][i]):
        by[tuple(k for k in p if isinstance(k, str))].append((p, v))
    if not by:
        return None
    f = R.choice(sorted(by))
    p, v = R.choice(by[f])
    new = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else ("" if v else "ValueError")
    o = s["ev"][i]
    for k in p[:-1]:
        o = o[k]
    o[p[-1]] = new
    e = s["ev"][i]
    return s, (str(e.get("op", e.get("k", ""))), ".".join(f))


class Run(vh.Run):
    def judge(self, module, sessions, constants="", label=None, chunk=4000, workers=8):
        small = [s for s in sessions if len(json.dumps(s["ev"])) < 20000]
        items = [x for x in (corrupt(R.choice(small)) for _ in range(N)) if x]
        bad = set()
        for c in range(0, len(items), 20):
            part = items[c:c + 20]
            try:
                b, _ = self._judge_part(module, [s for s, _ in part], constants, workers)
            except vh.MachineryError as e:
                b = []
                print("   machinery:", str(e)[:100])
            err = any(x["l"] == 0 for x in b)
            if err:                 # an evaluation error hides the others: one by one
                b = []
                for k, (s, _) in enumerate(part):
                    try:
                        r, _ = self._judge_part(module, [s], constants, workers)
                    except vh.MachineryError:
                        r = [1]
                    if r:
                        b.append({"sid": k + 1})
            bad |= {c + x["sid"] - 1 for x in b}
        t = defaultdict(lambda: [0, 0])
        for k, (_, f) in enumerate(items):
            t[f][0] += 1
            t[f][1] += k in bad
        log.append((module, len(items), len(bad)))
        for f in sorted(t):
            print("   %-14s %-22s %3d of %3d" % (f + (t[f][1], t[f][0])))
    def finish(self):
        pass


mod = importlib.import_module([f[:-3] for f in sorted(os.listdir(here + "/checks")) if f.startswith(pid.lower())][0])
run = Run(pid, "quick")
mod.main(run)
for m, n, b in log:
    print(f"BINDING {pid} {m}: {b} of {n} corrupted sessions rejected")
sys.stdout.flush()
os._exit(0)
