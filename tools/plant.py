"""plant.py BUGS.py [id ...] - makes /verif/seeded/<id>/ from bug definitions and confirms them in scratch copies:
the patch applies, the code builds, the stable tests pass, the demonstration passes without and fails with it.
Also runs the property's check against the copy and prints whether it is caught.

BUGS.py defines BUGS = [dict(id=, property=, file=, edits=[(old, new)], demo=, needs=, breaks=)]"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
DEMO = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nos.environ.setdefault('MPLBACKEND', 'Agg')\n"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **k)


def one(b):
    w = f"/tmp/plant_{b['id']}"
    sh(["git", "worktree", "remove", "--force", w], "/repo")
    shutil.rmtree(w, ignore_errors=True)
    r = sh(["git", "worktree", "add", "--detach", w, "HEAD"], "/repo")
    assert r.returncode == 0, r.stderr
    out = []
    try:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r0 = sh(["bash", f"{d}/demo.sh"], w)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
        for f, (old, new) in zip(files, b["edits"]):
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
            bt = sh(["git", "show", f"{BASE}:{f}"], "/repo").stdout.splitlines()
        diff = sh(["git", "diff"], w).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in minus if l.strip() and l not in bt]
        if mine:
            out.append(f"LINES NOT ORIGINAL: {mine}")
        r1 = sh(["bash", f"{d}/demo.sh"], w)
        x = f"/tmp/plant_{b['id']}.xml"
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "2", "-o", "junit_family=xunit2", f"--junitxml={x}"], w)
        import xml.etree.ElementTree as ET
        bad = set()
        for c in ET.parse(x).getroot().iter("testcase"):
            if any(k.tag in ("failure", "error", "skipped") for k in c):
                bad.add(c.get("classname") + "::" + c.get("name"))
        os.remove(x)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad &= stable
        c = sh(["/opt/venv/bin/python", f"{V}/run.py", b["property"]], V, timeout=900) if not os.environ.get("NOCHECK") else None
        if c is not None:
            pass
        out.append(f"demo clean={r0.returncode} planted={r1.returncode} tests={'ok' if not bad else sorted(bad)[:4]} " +
                   ("" if c is None else ""))
        if r0.returncode:
            out.append(r0.stderr[-600:] + r0.stdout[-300:])
        if r1.returncode == 0:
            out.append("DEMO DOES NOT FAIL: " + r1.stdout[-300:])
        else:
            out.append("   demo says: " + ((r1.stdout + r1.stderr).strip() or "-").splitlines()[-1][:200])
        e2 = dict(ENV, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        c = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", b["property"]], cwd=V, capture_output=True, text=True, env=e2, timeout=900)
        ls = c.stdout.strip().splitlines()
        out.append(f"   check: rc={c.returncode} " + ("CAUGHT " if c.returncode == 1 and "VIOLATION property=" in c.stdout else "*** MISSED *** ") + (ls[0][:300] if ls else c.stderr[-300:]))
        ok = not bad and r0.returncode == 0 and r1.returncode != 0 and not mine
        out.append("   counts" if ok else "   DOES NOT COUNT")
    finally:
        sh(["git", "worktree", "remove", "--force", w], "/repo")
    return f"== {b['id']} ({b['property']})\n" + "\n".join(out)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
os.environ["NOCHECK"] = "1"
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [b for b in bugs if not want or b["id"] in want]):
        print(r, flush=True)
