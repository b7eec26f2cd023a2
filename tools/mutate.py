"""mutate.py list|tests|checks  - mutation analysis of the checks, in scratch copies under /tmp/mt (never /repo).
list:   writes /tmp/mt/mutants.jsonl, one small change of a statement or expression of the code under test per line
tests:  runs the existing tests on each (in a copy of /repo) -> /tmp/mt/tests.jsonl
checks: runs the related checks (from copies of /verif) on those the tests do not notice -> /tmp/mt/checks.jsonl"""
import ast, glob, json, os, shutil, subprocess, sys, random
from concurrent.futures import ThreadPoolExecutor
import queue

W = "/tmp/mt"
NW = int(os.environ.get("NW", "4"))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
STYLE = {"color", "alpha", "label", "linestyle", "marker", "s", "markersize", "linewidth", "zorder", "fontsize", "edgecolor", "facecolor", "lw", "ls", "ms", "loc", "stacklevel", "crs"}
MAP = [("plots/seismicity", ["C22"]), ("plots/basics", ["C22"]), ("plots/statistical", ["C22", "C23"]), ("catalogs/client", ["C13"]), ("catalogs/rategrid", ["C17"]),
       ("catalogs/catalog.py", ["C14", "C15", "C16", "C12", "C26", "C11", "C02"]), ("io/parser", ["C11", "C12"]), ("bvalue/more_positive", ["C07", "C30", "C04"]), ("avalue", ["C08", "C04", "C15"]), ("estimate_mc", ["C09", "C10", "C31", "C24"]),
       ("weichert", ["C21"]), ("kijko", ["C21"]), ("bvalue/positive", ["C06", "C04"]), ("bvalue/utils", ["C04", "C07", "C27", "C05", "C30"]),
       ("bvalue", ["C04", "C05", "C06", "C07"]), ("b_significant", ["C19", "C23"]), ("declustering", ["C18"]), ("utils/__init__", ["C24", "C02", "C16"]), ("_config", ["C24"]), ("filtering", ["C25"]),
       ("coordinates", ["C25"]), ("simulate", ["C20"]), ("binning", ["C01", "C02", "C03"]), ("magnitudes", ["C28"]), ("lilliefors", ["C29"])]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(path, rel):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    span = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(a, b, new, line):
        if raw[a:b].decode() != new:
            out.append({"file": rel, "a": a, "b": b, "new": new, "line": line, "old": raw[a:b].decode()})
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    def visit(n, infun):
        if n in docs or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.arg) or (isinstance(n, ast.AnnAssign) and n.value is None):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = raw[a:b].decode()
            op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(n.ops[0])]
            if op in mid:
                add(a, b, mid.replace(op, CMP[type(n.ops[0])], 1), n.lineno)
        if isinstance(n, (ast.BinOp,)) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            add(a, b, mid.replace(op, BIN[type(n.op)], 1), n.lineno)
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                mid = raw[a:b].decode()
                w, v = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                add(a, b, mid.replace(w, v, 1), n.lineno)
            for x in n.values:
                a, b = span(x)
                add(a, b, "True" if isinstance(n.op, ast.And) else "False", n.lineno)
        if isinstance(n, ast.UnaryOp):
            a, b = span(n)
            c, d = span(n.operand)
            if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                add(a, b, raw[c:d].decode(), n.lineno)
        if isinstance(n, ast.Constant) and infun:
            a, b = span(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), n.lineno)
            elif isinstance(n.value, (int, float)):
                add(a, b, repr(n.value + 1) if n.value != 1 else "0", n.lineno)
            elif isinstance(n.value, str) and len(n.value) > 1 and raw[a:a + 1] in b"'\"":
                add(a, b, repr(n.value + "x"), n.lineno)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            if not (isinstance(n.test, ast.Compare) and len(n.test.ops) == 1):
                add(a, b, "not (" + raw[a:b].decode() + ")", n.lineno)
            if isinstance(n, ast.If):
                add(a, b, "False", n.lineno)
                add(a, b, "True", n.lineno)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise)) and infun and n not in docs:
            if not (isinstance(n, ast.Expr) and "warn" in (raw[slice(*span(n))].decode()[:14])):
                a, b = span(n)
                add(a, b, "pass", n.lineno)
        if isinstance(n, ast.Assign) and infun:
            t = n.targets[0]
            a, b = span(n)
            if isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript):
                add(a, b, "pass", n.lineno)
            elif isinstance(t, ast.Name):
                add(a, b, f"{t.id} = {t.id}", n.lineno)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg not in STYLE:
                    a = off[k.lineno - 1] + k.col_offset
                    b = span(k.value)[1]
                    while raw[b:b + 1] in b" \n\t" and b < len(raw):
                        b += 1
                    if raw[b:b + 1] == b",":
                        b += 1
                    add(a, b, "", k.lineno)
            for x in n.args[1:]:
                pass
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "sort_values", "reset_index", "dropna", "round", "sort_index") and infun:
                a, b = span(n)
                c, d = span(n.func.value)
                add(a, b, raw[c:d].decode(), n.lineno)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
                sw = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "any": "all", "all": "any", "floor": "ceil", "nanmean": "mean", "nansum": "sum", "ones": "zeros", "zeros": "ones", "nanmin": "min", "nanmax": "max", "sort": "array", "abs": "array"}
                if n.func.attr in sw:
                    a, b = span(n.func)
                    add(a, b, "np." + sw[n.func.attr], n.lineno)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            a, b = span(n.slice)
            if b > a:
                add(a, b, ":", n.lineno)
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, True)
            for c in n.body:
                visit(c, True)
            for d in n.decorator_list:
                visit(d, infun)
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Call) and "warn" in raw[slice(*span(n.func))].decode():
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            visit(c, infun)
    visit(tree, False)
    ok = []
    for m in out:
        new = (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()
        try:
            compile(new, rel, "exec")
            ok.append(m)
        except SyntaxError:
            pass
    return ok


def cmd_list():
    ms = []
    for p in sorted(glob.glob("/repo/seismostats/**/*.py", recursive=True)):
        if "/tests/" not in p:
            ms += mutants(p, os.path.relpath(p, "/repo"))
    seen, out = set(), []
    for m in ms:
        k = (m["file"], m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            out.append(m)
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(out)
    with open(f"{W}/mutants.jsonl", "w") as f:
        for i, m in enumerate(out):
            m["i"] = i
            f.write(json.dumps(m) + "\n")
    print(len(out))


def put(root, m):
    p = f"{root}/{m['file']}"
    raw = open(f"/repo/{m['file']}", "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def back(root, m):
    shutil.copyfile(f"/repo/{m['file']}", f"{root}/{m['file']}")


def pool(items, fn, out):
    q = queue.Queue()
    for w in range(NW):
        q.put(w)
    done = {json.loads(l)["i"] for l in open(out)} if os.path.exists(out) else set()

    def go(m):
        if m["i"] in done:
            return
        w = q.get()
        try:
            r = fn(m, w)
        except Exception as e:
            r = {"err": repr(e)}
        finally:
            q.put(w)
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, **r)) + "\n")
    with ThreadPoolExecutor(NW) as ex:
        list(ex.map(go, items))


def cmd_tests():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for w in range(NW):
        shutil.rmtree(f"{W}/t{w}", ignore_errors=True)
        shutil.copytree("/repo", f"{W}/t{w}", ignore=shutil.ignore_patterns(".git"))

    def fn(m, w):
        root = f"{W}/t{w}"
        put(root, m)
        try:
            x = f"{W}/t{w}.xml"
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", f"--junitxml={x}", "-o", "junit_family=xunit2"], cwd=root, capture_output=True, text=True, env=ENV, timeout=200)
            except subprocess.TimeoutExpired:
                return {"tests": "timeout"}
            return {"tests": "pass" if r.returncode == 0 else "fail"}
        finally:
            back(root, m)
    pool([json.loads(l) for l in open(f"{W}/mutants.jsonl")], fn, f"{W}/tests.jsonl")


def cmd_checks():
    have = {os.path.basename(p)[:3].upper() for p in glob.glob("/verif/checks/c*.py")}
    for w in range(NW):
        for d, s in ((f"{W}/t{w}", "/repo"), (f"{W}/v{w}", "/verif")):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(s, d, ignore=shutil.ignore_patterns(".git"))

    def fn(m, w):
        root = f"{W}/t{w}"
        put(root, m)
        res = {}
        try:
            ids = next((i for k, i in MAP if k in m["file"]), [])
            for i in [i for i in ids if i in have]:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "run.py", i], cwd=f"{W}/v{w}", capture_output=True, text=True, env=dict(ENV, VERIF_REPO=root), timeout=900)
                    res[i] = r.returncode
                    if r.returncode not in (0, 1):
                        res["tail"] = (r.stdout + r.stderr)[-300:]
                except subprocess.TimeoutExpired:
                    res[i] = "timeout"
                if res[i] == 1:
                    break
        finally:
            back(root, m)
        return {"res": res}
    items = [json.loads(l) for l in open(f"{W}/tests.jsonl")]
    pool([m for m in items if m.get("tests") == "pass"], fn, f"{W}/checks.jsonl")


{"list": cmd_list, "tests": cmd_tests, "checks": cmd_checks}[sys.argv[1]]()
