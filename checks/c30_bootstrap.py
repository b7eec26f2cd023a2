"""C30 - bootstrap uncertainties."""
import numpy as np
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
NANV, INFV = NOTINT - 1, 2000000


def stat(rng):
    k = int(rng.integers(6))
    lim = lambda v: int(max(-20, min(20, v)))
    return [lambda x: lim(np.max(x)), lambda x: lim(np.sum(x) % 23), lambda x: np.nan if int(np.sum(x)) % 2 == 0 else lim(x[0]),
            lambda x: np.inf if x[0] == x[-1] else -np.inf if x[0] > x[-1] + 3 else lim(x[-1]), lambda x: np.nan, lambda x: float(lim(x[0] - x[-1]))][k]


def boot(rng, sample, n, seed, f):
    from seismostats.analysis.bvalue.utils import bootstrap_std
    draws, est = [], []

    def func(x):
        x = np.asarray(x)
        draws.append([int(v) for v in x.ravel()])
        r = f(x)
        est.append(r)
        return r
    arg = pick(rng, [lambda: np.array(sample), lambda: list(sample), lambda: np.array(sample, float)])()
    keep = snap(arg)
    kw = {} if n == 500 and rng.random() < .5 else {"n": n}
    if seed is not None:
        kw["random_state"] = seed
    r, err = call(bootstrap_std, arg, func, **kw)
    e = {"op": "boot", "sample": [int(x) for x in sample], "n": n, "seed": -1 if seed is None else seed, "err": err, "same": same((arg,), keep), "est": [], "draws": [], "std": 0, "nan": False, "counts": [], "dev": 0, "unlike": False}
    if not err:
        e["est"] = [NANV if math.isnan(x) else INFV if x == np.inf else -INFV if x == -np.inf else small_int(x) for x in est]
        e["draws"] = draws[:30]
        try:
            r = float(r)
            e["nan"] = math.isnan(r)
            e["std"] = 0 if e["nan"] else int(round(r * 1000)) if abs(r) < 40 else NOTINT
        except Exception:
            e["std"] = NOTINT
        e["unlike"] = len(set(sample)) == len(sample) and len(sample) >= 6 and n >= 5
        if e["unlike"]:
            allv = [x for d in draws for x in d]
            e["counts"] = [allv.count(int(v)) for v in sample]
            e["dev"] = int(math.sqrt(n)) + 2
    return e


def session(case, rng):
    ev = []
    for _ in range(3):
        if case is not None:
            sample = list(case["s"])
        else:
            k = int(pick(rng, [1, 2, 6, 10, 25]))
            sample = [int(x) for x in (rng.permutation(k * 2)[:k] - 3 if rng.random() < .7 else rng.integers(0, 5, k))]
        n = int(pick(rng, [0, 1, 2, 3, 5, 17, 60])) if rng.random() < .85 else 500
        f = stat(rng)
        seed = pick(rng, [None, 0, 1, 42, 7])
        ev.append(boot(rng, sample, n, seed, f))
        for _ in range(int(rng.integers(0, 3))):
            ev.append(boot(rng, sample, n, pick(rng, [None, seed, seed, 3]), f if rng.random() < .6 else stat(rng)))
    return {"ev": ev}


def large(k, rng):
    """resamples of large samples"""
    size = int([501, 700, 1001, 1500, 2100, 3000][k % 6])
    sample = [int(x) for x in (rng.permutation(size * 2)[:size] if rng.random() < .5 else rng.integers(0, 40, size))]
    return {"ev": [boot(rng, sample, int(pick(rng, [1, 2, 3])), pick(rng, [None, 1, 5]), stat(rng)) for _ in range(2)]}


def series(rng, n):
    """binned or continuous magnitudes in time order, in units"""
    k = int(rng.integers(3))
    if k == 0:
        return [int(x) for x in rng.exponential(5, n)]
    if k == 1:        # growing
        return [int(x) for x in np.arange(n) // 4 + rng.integers(0, 2, n)]
    return [int(x) for x in np.where(np.arange(n) < n // 2, np.arange(n) // 3, rng.exponential(4, n))]


def spread(item, rng):
    from seismostats.analysis import BMorePositiveBValueEstimator as B
    n = int(pick(rng, [60, 90]))
    ks = series(rng, n)
    D = float(pick(rng, [.1, .01, .2]))
    off = round(int(rng.integers(-5, 15)) * D, 10)
    m = np.round(off + np.array(ks) * D, 10)
    w = rng.uniform(.5, 2, n) if rng.random() < .3 else None
    t = np.sort(rng.choice(10 * n, n, False)).astype(float)
    o = rng.permutation(n)
    low = int(rng.integers(0, 8))            # some events below the completeness magnitude
    pre = np.round(off - D * rng.integers(1, 5, low), 10)
    dmc = None if rng.random() < .6 else int(rng.integers(1, 3)) * D

    def one(mm, tt, ww, k):
        e = B()
        kw = {} if ww is None else {"weights": ww}
        if tt is not None:
            kw["times"] = tt
        if dmc is not None:
            kw["dmc"] = dmc
        mm = np.concatenate([pre, mm])
        if tt is not None:
            kw["times"] = np.concatenate([np.arange(low) - 100., tt])
        if ww is not None:
            kw["weights"] = np.concatenate([np.ones(low), ww])
        keep = snap(mm, kw)
        e.calculate(mm, mc=off, delta_m=D, **kw)
        b = e.b_value
        s, sb, s2 = [e.std for _ in range(k)], [e.std_beta for _ in range(k)], [e.std for _ in range(k)]
        return b, s, sb, s2, same((mm, kw), keep) and (e.b_value == b or b != b)
    e = {"op": "spread", "err": "", "same": True, "ok": False, "ratio": 0, "rel": 0, "lo": 700, "hi": 1430}
    first = pick(rng, [None, t])
    for k in (1, 7):                        # spreads are random: what looks wrong is measured again, more often
        a, err = call(one, m, first, w, k)
        b, err2 = (None, "") if err else call(one, m[o], t[o], None if w is None else w[o], k)
        e["err"] = err or err2
        if e["err"]:
            break
        v = [[float(x) for x in l] for l in (*a[1:4], *b[1:4])]
        e["same"] = bool(a[4] and b[4])
        e["ok"] = all(math.isfinite(x) and 1e-6 < x < 1e5 for l in v for x in l)
        if e["ok"]:
            med = lambda *i: float(np.median(sum((v[j] for j in i), [])))
            e["ratio"] = int(round(1000 * med(1, 4) / med(0, 2, 3, 5)))
            e["rel"] = int(round(1000 * med(0, 2) / med(3, 5)))     # the same events listed in another order
            if 2303 * .85 < e["ratio"] < 2303 * 1.15 and 850 < e["rel"] < 1150:
                break
    return {"ev": [e]}


def size(item, rng):
    from seismostats.analysis import BMorePositiveBValueEstimator as B
    n = 100
    while True:
        m = np.round(np.floor(rng.exponential(4.3, n)) * .1 + 2, 10)
        if m.max() < 6:
            break
    e = {"op": "spread", "err": "", "same": True, "ok": False, "ratio": 2303, "rel": 0, "lo": 40, "hi": 1000}

    def run_():
        x = B()
        x.calculate(m, mc=2.0, delta_m=.1)
        return x.std / x.b_value
    r, e["err"] = call(run_)
    if not e["err"]:
        e["ok"] = bool(math.isfinite(r))
        e["rel"] = int(round(1000 * r)) if e["ok"] else 0
    return {"ev": [e]}


def growing(item, rng):
    """every event one bin above the one before: in time order the gaps between the events drawn are short"""
    from seismostats.analysis import BMorePositiveBValueEstimator as B
    D = float(pick(rng, [.1, .01, .05]))
    n = 60
    m = np.round((int(rng.integers(-10, 10)) + np.arange(n)) * D, 10)
    o = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    kw = {"times": np.arange(n)[o]} if rng.random() < .5 or not (o == np.arange(n)).all() else {}
    e = {"op": "spread", "err": "", "same": True, "ok": False, "ratio": 2303, "rel": 0, "lo": 450, "hi": 800}

    def run_():
        x = B()
        x.calculate(m[o], mc=m[0], delta_m=D, **kw)
        return float(x.std * D)
    r, e["err"] = call(run_)
    if not e["err"]:
        e["ok"] = bool(math.isfinite(r))
        e["rel"] = int(round(10000 * r)) if e["ok"] and abs(r) < 1e5 else 0
    return {"ev": [e]}


def weighted(item, rng):
    """few events carry nearly all the weight: as uncertain as the bootstrap of the weighted estimate"""
    from seismostats.analysis import BMorePositiveBValueEstimator as B
    from seismostats.analysis.bvalue.utils import bootstrap_std
    n = 100
    m = np.round(np.minimum(np.floor(rng.exponential(4.3, n)), 40) * .1 + 2, 10)
    w = np.full(n, .001)
    w[rng.choice(n, 20, False)] = float(pick(rng, [1, 5]))
    o = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    kw = {"times": np.arange(n)[o]} if not (o == np.arange(n)).all() else {}
    e = {"op": "spread", "err": "", "same": True, "ok": False, "ratio": 2303, "rel": 0, "lo": 400, "hi": 2500}

    def value(i):
        i = np.sort(i)
        x = B()
        x.calculate(m[i], mc=2.0, delta_m=.1, weights=w[i])
        return x.b_value

    def run_(k):
        x = B()
        x.calculate(m[o], mc=2.0, delta_m=.1, weights=w[o], **kw)
        return float(np.median([x.std for _ in range(k)]) / np.median([bootstrap_std(np.arange(n), value, n=500) for _ in range(k)]))
    for k in (1, 7):
        r, e["err"] = call(run_, k)
        if e["err"]:
            break
        e["ok"] = bool(math.isfinite(r))
        e["rel"] = int(round(1000 * r)) if e["ok"] and abs(r) < 1e5 else 0
        if 850 < e["rel"] < 1150:
            break
    return {"ev": [e]}


def main(run):
    inv = ["WelfordIsVariance", "InvalidLeftOut", "DrawsFromSample", "ConstantNoSpread", "ShiftFree", "Emit"]
    cases = []
    for st in ("max", "sum", "odd"):
        cases += run.model("MCBootstrap", cfg(constants={"Vals": "{0, 1, 3}", "MaxN": "2", "Rounds": run.n("3", "4"), "Stat": f'"{st}"'}, invariants=inv), label=st)
        if run.thorough:
            run.model("MCBootstrap", cfg(constants={"Vals": "{0, 1, 3}", "MaxN": "3", "Rounds": "3", "Stat": f'"{st}"'}, invariants=inv), label=st + " of three")
    s = run.pmap(session, cases + [None] * run.n(900, 10000), 1)
    s += run.pmap(large, range(run.n(12, 60)), 6)
    s += run.pmap(spread, range(run.n(60, 600)), 2) + run.pmap(size, range(run.n(10, 100)), 3) + run.pmap(growing, range(run.n(10, 100)), 4) + run.pmap(weighted, range(run.n(10, 100)), 5)
    run.judge("TraceBootstrap", s)
    run.assumptions += ["statistics return integers (or NaN or infinities)", "spreads of estimators are random; they are compared within seven standard deviations of a bootstrap of 500"]
