"""Shared machinery of the checks: environment, TLC runner, projection of observed
values to the specification's value domain, verdicts and evidence.

Every check follows one pattern:
  1. run.model(...)  - TLC explores the specification exhaustively for small constants,
                       checking its invariants, and prints the cases (inputs, histories)
                       it visited;
  2. the driver executes these cases (and larger seeded random ones) on the real code and
     records sessions = lists of events {call, arguments, observation};
  3. run.judge(...)  - TLC runs the trace specification over all sessions. Each event is
                       compared with the specification's transition; the verdict is
                       total and names the failing clauses.
"""
import itertools, multiprocessing, os, re, sys, json, time, math, signal, subprocess, tempfile, shutil, random, traceback, contextlib, warnings, io
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- projection
BAD = [7, 0]      # not representable as a small rational
NAN = [0, 0]
INF = [1, 0]
NINF = [-1, 0]


def rat(x, maxden=20000, tol=1e-9):
    """float -> <<num, den>>; NaN/inf/unrepresentable have den 0."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return BAD
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > tol * max(1.0, abs(x)):
        return BAD
    if abs(f.numerator) > 2_000_000_000:
        return BAD
    return [f.numerator, f.denominator]


NOTINT = -999999


def units(x, delta, tol=1e-6):
    """float -> integer number of units of delta; NaN and off-grid values are marked."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return NOTINT - 2
    if math.isnan(x):
        return NOTINT - 1
    k = x / delta
    r = round(k) if abs(k) < 1e9 else None
    if r is None or abs(k - r) > tol:
        return NOTINT
    return int(r)


def small_int(x):
    try:
        f = float(x)
    except (TypeError, ValueError):
        return NOTINT
    if math.isnan(f) or f != math.floor(f) or abs(f) > 1e9:
        return NOTINT
    return int(f)


class CallTimeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(sig, frm):
        raise CallTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *a, _t=30.0, **k):
    """Runs fn; returns (result, "") or (None, exception class name)."""
    try:
        with limit(_t), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return fn(*a, **k), ""
    except CallTimeout:
        return None, "Timeout"
    except Exception as e:
        return None, type(e).__name__


# ---------------------------------------------------------------- run
_PM = None


def _quiet():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _pm_one(i):
    fn, items, seed, salt, np = _PM
    np.random.seed((seed * 1000003 + salt * 7919 + i) % 2**32)
    random.seed(seed * 1000003 + salt * 7919 + i)
    base = getattr(np.random.default_rng, "_plain", np.random.default_rng)     # generators without a seed: reproducible, but each its own
    count = itertools.count()

    key = [seed, salt, i]

    def default_rng(seed=None):
        return base(key + [next(count)] if seed is None else seed)
    default_rng._plain = base
    np.random.default_rng = default_rng
    return fn(items[i], np.random.default_rng([seed, salt, i]))


class Run:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.ntraces = 0
        self.nevents = 0
        self.unjudged = 0
        self.samples = []
        self.models = []
        self.trace_runs = []
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.replay_path = None
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.known = self._load_known()
        random.seed(self.seed)
        try:
            import numpy as np
            np.random.seed(self.seed)
            self.rng = np.random.default_rng(self.seed)
        except ImportError:
            pass
        self.thorough = self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f).get("findings", []) if k.get("property") == self.pid]

    # -- TLC
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=800):
        d = tempfile.mkdtemp(dir=self.work)
        cfgp = os.path.join(d, "run.cfg")
        text, consts = cfg if isinstance(cfg, tuple) else (cfg, {})
        with open(os.path.join(d, "RunModel.tla"), "w") as f:     # wrapper that instantiates the constants
            f.write(f"---- MODULE RunModel ----\nEXTENDS {module}\n")
            for k, v in consts.items():
                f.write(f"c_{k} == {v}\n")
            f.write("====\n")
        with open(cfgp, "w") as f:
            f.write(text)
        cmd = ["java", f"-Djava.io.tmpdir={d}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPECS}", "-cp", JARS,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"), "-workers", str(workers),
               "-config", cfgp, os.path.join(d, "RunModel.tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC timed out on {module}")
        with open(outp, errors="replace") as f:
            out = f.read()
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        gen = dist = 0
        prints = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    prints.append(json.loads(line))
                except ValueError:
                    raise MachineryError("unparsable TLC output line: " + line[:200])
            elif " states generated" in line and "distinct states found" in line and line[:1].isdigit():
                w = line.replace(",", "").split()
                gen, dist = int(w[0]), int(w[3])
        ok = "Model checking completed. No error has been found." in out
        return dict(ok=ok, generated=gen, distinct=dist, prints=prints, out=out, rc=p.returncode)

    def model(self, module, cfg, label=None, workers=8, env=None, timeout=800):
        """Exhaustive model check of a specification; returns the printed cases."""
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout)
        if not r["ok"]:
            tail = "\n".join(r["out"].splitlines()[-(400 if os.environ.get("VERIF_DEBUG") else 60):])
            raise MachineryError(f"model check of {module} failed\n{tail}")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"module": module, "label": label or module, "distinct_states": r["distinct"],
                            "generated_states": r["generated"]})
        cases, seen = [], set()
        for s in r["prints"]:
            if s.startswith("@@CASE "):
                if s not in seen:
                    seen.add(s)
                    cases.append(json.loads(s[7:]))
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))   # independent of worker scheduling
        self.models[-1]["cases"] = len(cases)
        return cases

    def judge(self, module, sessions, constants="", label=None, chunk=4000, workers=8):
        """Trace validation. sessions: list of {"ev": [...], ...}. Records violations."""
        if not sessions:
            raise MachineryError(f"no sessions for {module}")
        total_states = 0
        for c0 in range(0, len(sessions), chunk):
            part = sessions[c0:c0 + chunk]
            bads, st = self._judge_part(module, part, constants, workers)
            total_states += st
            for b in bads:
                s = part[b["sid"] - 1]
                self._violation(module, s, b)
        nev = sum(len(s["ev"]) for s in sessions)
        self.ntraces += len(sessions)
        self.nevents += nev
        self.trace_runs.append({"module": module, "label": label or module, "sessions": len(sessions),
                                "events": nev, "trace_states": total_states})
        for s in sessions[:: max(1, len(sessions) // 2)][:2]:
            if len(self.samples) < 8:
                self.samples.append({"module": module, "session": trim(s)})

    def _judge_part(self, module, part, constants, workers):
        tf = os.path.join(tempfile.mkdtemp(dir=self.work), "trace.ndjson")
        with open(tf, "w") as f:
            for s in part:
                f.write(json.dumps({"ev": s["ev"], "cfg": s.get("cfg", {"none": 0})}, ensure_ascii=True) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + constants
        r = self.tlc(module, cfg, env={"TRACE": tf}, workers=workers)
        want = sum(len(s["ev"]) + 1 for s in part)
        if r["ok"] and r["distinct"] == want:
            bads = {}
            for s in r["prints"]:
                if s.startswith("@@BAD "):
                    b = json.loads(s[6:])
                    bads[(b["sid"], b["l"])] = b
            return list(bads.values()), r["distinct"]
        if r["ok"]:
            raise MachineryError(f"{module}: {r['distinct']} trace states, expected {want} (events not consumed)")
        # an evaluation error: the observation lies outside the specification's domain.
        evalerr = any(w in r["out"] for w in ("TLC threw an unexpected exception", "evaluat", "Attempted to", "Overflow"))
        if not evalerr or "Parsing or semantic analysis failed" in r["out"] or "Could not find module" in r["out"]:
            raise MachineryError(f"{module}: TLC failed\n" + "\n".join(r["out"].splitlines()[-50:]))
        if len(part) == 1:
            if "Overflow when computing" in r["out"]:
                self.unjudged += 1    # exact arithmetic of the specification exceeds 32 bit: no verdict on this session
                return [], want
            if os.environ.get("VERIF_DEBUG"): print(r["out"][-4000:])
            return [{"sid": 1, "l": 0, "c": ["not-judgeable: " + last_error(r["out"])]}], want
        m = re.findall(r"sid = (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else len(part) // 2
        bads, st = [], 0
        for lo, hi in (((k, k + 1), (0, k), (k + 1, len(part))) if m else ((0, k), (k, len(part)))):
            if m and lo == 0 and hi == k:       # everything but the culprit, in one run
                rest = part[:k] + part[k + 1:]
                b, s2 = self._judge_part(module, rest, constants, workers) if rest else ([], 0)
                bads += [dict(x, sid=x["sid"] + (1 if x["sid"] > k else 0)) for x in b]
                st += s2
                break
            b, s2 = self._judge_part(module, part[lo:hi], constants, workers) if hi > lo else ([], 0)
            bads += [dict(x, sid=x["sid"] + lo) for x in b]
            st += s2
            if any(x["l"] == 0 for x in bads):  # one such culprit is enough
                break
        return bads, st

    def _violation(self, module, s, b):
        l = b["l"]
        ev = s["ev"][l - 1] if l >= 1 else None
        clauses = sorted(b["c"])
        key = s.get("kf")
        for k in self.known:
            if key is not None and key == k.get("case") and set(clauses) <= set(k.get("clauses", [])):
                if k["id"] not in [h["id"] for h in self.known_hits]:
                    self.known_hits.append(k)
                return
        self.violations.append({"module": module, "event_index": l, "clauses": clauses,
                                "event": trim(ev), "session": trim(s, 20000)})

    def violation(self, what, detail):
        """A violation decided outside a trace (counted and reported like the others)."""
        self.violations.append({"module": "driver", "event_index": 0, "clauses": [what], "event": detail,
                                "session": detail})

    def pmap(self, fn, items, salt=0):
        """fn(item, rng) for every item in parallel; deterministic, results in item order"""
        import numpy as np
        global _PM
        _PM = (fn, list(items), self.seed, salt, np)
        with multiprocessing.get_context("fork").Pool(8, initializer=_quiet) as pool:
            return pool.map(_pm_one, range(len(_PM[1])), chunksize=max(1, min(50, len(_PM[1]) // 32)))

    def finish(self, level="model_checking", note=None):
        wall = round(time.time() - self.t0, 2)
        if self.unjudged * 50 > self.ntraces and not self.violations:
            raise MachineryError(f"{self.unjudged} of {self.ntraces} sessions exceed the specification's arithmetic")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.ntraces,
                           "events_validated": self.nevents, "sessions_without_verdict": self.unjudged,
                           "models": self.models, "trace_runs": self.trace_runs,
                           "samples": self.samples or ["none"]},
              "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations)}
        if note:
            ev["coverage"]["note"] = note
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ep = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations[:int(os.environ.get("VERIF_NV", "20"))], "count": len(self.violations)}, f, indent=1, default=str)
            byc = {}
            for v in self.violations:
                for c in v["clauses"]:
                    byc[c] = byc.get(c, 0) + 1
            print(f"{len(self.violations)} rejected events; clauses: {byc}")
            print("first:", json.dumps(self.violations[0]["event"], default=str)[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        with open(ep, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier} seed={self.seed}: states={self.states} transitions={self.transitions} "
              f"traces={self.ntraces} events={self.nevents} wall={wall}s -> {'VIOLATION' if rc else 'ok'}")
        return rc


def last_error(out):
    ls = [x for x in out.splitlines() if x.strip()]
    for i, x in enumerate(ls):
        if x.startswith("Error:"):
            return " ".join(ls[i:i + 3])[:300]
    return "?"


def trim(o, n=3000):
    n = int(os.environ.get("VERIF_TRIM", n))
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + "..."


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraint=None, extra=""):
    t = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    if constants:
        t += "CONSTANTS\n" + "".join(f"  {k} <- c_{k}\n" for k in constants)
    for i in invariants:
        t += f"INVARIANT {i}\n"
    for p in properties:
        t += f"PROPERTY {p}\n"
    if constraint:
        t += f"CONSTRAINT {constraint}\n"
    return t + extra, dict(constants or {})
