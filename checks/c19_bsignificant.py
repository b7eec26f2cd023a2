"""C19 - significance of b-value variations."""
import numpy as np
import pandas as pd
from scipy.stats import norm
from vh import *
from sigdrv import *

pick = lambda rng, l: l[int(rng.integers(len(l)))]


def fix(x, s):
    x = float(x)
    return NOTINT - 1 if math.isnan(x) else NOTINT if abs(x) * s > 2e9 else int(round(x * s))


def magarr(m, rng):
    a = np.array([np.nan if x == NOTINT - 1 else x / 10 for x in m], dtype=float)
    k = int(rng.integers(4))
    return a if k < 2 else list(a) if k == 2 else pd.Series(a, index=np.arange(len(a)) * 2 + 1)


def sig_event(rng, ev, useX, n, minnum, D, P, est, cons, mismatch=""):
    """ev: list of (m, mc, t, x)"""
    from seismostats.analysis.b_significant import b_significant_1D
    import seismostats.analysis as A
    tk = pick(rng, ["int", "float", "dt", "py", "series"])
    m = magarr([e[0] for e in ev], rng)
    t = times_as([e[2] for e in ev], tk)
    mcs = {e[1] for e in ev}
    if len(mcs) == 1 and rng.random() < .7:
        v = ev[0][1] / 10
        mc = pick(rng, [v, np.float64(v)]) if v != int(v) else pick(rng, [v, int(v), np.int64(v), np.float64(v), np.array(v)])
    else:
        mc = np.array([e[1] / 10 for e in ev])
        mc = pick(rng, [mc, list(mc), pd.Series(mc, index=np.arange(len(mc))[::-1])])
    x = None
    if useX:
        xv = np.array([e[3] for e in ev])
        x = pick(rng, [xv, xv * .5 - 2, list(xv * 1.), pd.Series(xv * 3., index=np.arange(len(xv)) + 5), np.datetime64("2000-01-01") + xv.astype("timedelta64[D]")])
    if mismatch == "times":
        t = t[:-1]
    if mismatch == "x":
        x = np.arange(len(ev) + 1)
    log, timed = [], False
    kw = {}
    if est == "script":
        cls = scripted(P)
    else:
        base, timed, q = {"classic": (A.ClassicBValueEstimator, False, .1), "utsu": (A.UtsuBValueEstimator, False, .1), "bpos": (A.BPositiveBValueEstimator, False, .1), "bmore": (A.BMorePositiveBValueEstimator, False, .1),
                          "aclassic": (A.ClassicAValueEstimator, False, .1), "apos": (A.APositiveAValueEstimator, True, .1), "amore": (A.AMorePositiveAValueEstimator, True, .1)}[est]
        cls = spying(base, q, log, tback(tk))
        if est == "amore":
            kw["b_value"] = 1.0
    args = [m, mc, D / 10, t, n]
    before = snap(args, x)
    named = rng.random() < .5
    k2 = dict(min_num=minnum, method=cls, x_variable=x, conservative=cons, **kw)
    if minnum == 2 and named:
        del k2["min_num"]
    if cons and named:
        del k2["conservative"]
    if named:
        r, err = call(lambda: b_significant_1D(**dict(zip(["magnitudes", "mc", "delta_m", "times", "n_m"], args)), **k2))
    else:
        r, err = call(lambda: b_significant_1D(*args, **k2))
    e = {"op": "sig", "events": [{"m": int(a), "mc": int(b), "t": int(c), "x": int(d)} for a, b, c, d in ev], "useX": bool(useX), "n": int(n), "minnum": int(minnum), "D": int(D), "P": int(P), "est": "script" if est == "script" else "log",
         "timed": timed, "log": [], "conservative": bool(cons), "mismatch": mismatch, "err": err, "mac": 0, "mu": BAD, "var8": 0, "z4": 0, "std4": 0, "diff4": 0, "unchanged": same(before, snap(args, x))}
    if not err:
        p, mac, mu, std = (float(v) for v in r)
        e.update(mac=fix(mac, 1e6), mu=rat(mu), var8=fix(std * std, 1e8), std4=fix(std, 1e4), diff4=fix(mac - mu, 1e4),
                 z4=NOTINT - 1 if math.isnan(p) else int(round(min(5., max(-5., float(norm.isf(p)))) * 1e4)))
    seen = set()
    for c in log:
        key = json.dumps(c)
        if key not in seen:
            seen.add(key)
            e["log"].append(c)
    return e


def random_events(rng, L, D, mcs, nan=True, small=False):
    m = rng.geometric(.25, L) - 3 + min(mcs)
    if D == 2:
        m = 2 * m
        mcs = [2 * c for c in mcs]
    mc = rng.choice(mcs, L) if rng.random() < .6 else np.sort(rng.choice(mcs, L))
    if nan and rng.random() < .3:
        m = np.where(rng.random(L) < .1, NOTINT - 1, m)
    t = rng.permutation(2 * L)[:L] if rng.random() < .6 else np.arange(L)
    x = rng.permutation(3 * L)[:L] - L
    if rng.random() < .2:
        x = t
    return [(int(a), int(b), int(c), int(d)) for a, b, c, d in zip(m, mc, t, x)]


def main(run):
    base = {"MaxLen": 6, "Magv": "{0, 2}", "Mcs": "{0, 1}", "Ns": "{1, 2}", "D": 1, "P": 5}
    inv = ["GroupsMatch", "EveryWindowOnce", "MoranLaws", "PairsBound"]
    cases = run.model("MCBSignificant", cfg(constants=base, invariants=inv + ["Emit"]), "all sequences of up to 6 events of 2 magnitudes and 2 completeness levels, groups of 1 and 2")
    run.model("MCBSignificant", cfg(constants=base | {"MaxLen": 9, "Magv": "{1, 3}", "Mcs": "{1}", "Ns": "{1, 2, 3}", "D": 0}, invariants=inv), "up to 9 events above one completeness, groups of up to 3")
    if run.thorough:
        run.model("MCBSignificant", cfg(constants=base | {"MaxLen": 8, "Magv": "{0, 2, 3}", "Mcs": "{0}", "Ns": "{1, 2}"}, invariants=inv), "3 magnitudes, up to 8 events")
        run.model("MCBSignificant", cfg(constants=base | {"MaxLen": 13, "Magv": "{1, 2}", "Mcs": "{1}", "Ns": "{1, 2, 4}", "D": 0}, invariants=inv), "up to 13 events, groups of up to 4")
    keep = cases if run.thorough else [c for i, c in enumerate(cases) if i % max(1, len(cases) // 1500) == 0]

    def small(c, rng):
        ev = [(2 * a, 2 * b, t, x) for a, b, t, x in c["e"]]     # delta_m = 0.2
        return {"ev": [sig_event(rng, ev, c["x"], c["n"], int(rng.integers(1, c["n"] + 1)), 2, pick(rng, [5, 7, 11]), "script", bool(rng.random() < .5))]}
    sessions = run.pmap(small, keep, 1)

    def larger(k, rng):
        n = int(rng.integers(1, 9))
        L = int(n * rng.integers(3, 12) + rng.integers(0, n)) + int(rng.integers(0, 12))
        D = pick(rng, [1, 2])
        est = "script" if k % 3 else pick(rng, ["classic", "utsu", "bpos", "bmore" if k % 21 == 0 else "bpos", "aclassic", "apos", "amore"])
        if D == 2 or est in ("utsu",):
            pass
        mcs = pick(rng, [[0], [10], [-3], [5, 6], [10, 11, 12, 15], [-5, 0, 2]])
        if est == "script" and rng.random() < .2:
            D = 0
        ev = random_events(rng, L, D, mcs, nan=est == "script")
        cons = bool(rng.random() < .5)
        lo = 1 if est == "script" else min(n, 2)
        minnum = int(rng.integers(lo, n + 1)) if rng.random() < .7 else min(n, 2)
        mis = pick(rng, ["times", "x"]) if rng.random() < .03 else ""
        if rng.random() < .03:
            minnum = n + int(rng.integers(1, 3))
        P = pick(rng, [2, 3, 5, 11]) if L / n < 14 else 3
        return {"ev": [sig_event(rng, ev, bool(rng.random() < .6), n, minnum, D, P, est, cons, mis)]}
    sessions += run.pmap(larger, range(run.n(1500, 16000)), 2)

    def longer(k, rng):                    # long sequences: index arithmetic far from the start, unstable sorts
        n = int(rng.integers(3, 14))
        L = int(n * rng.integers(15, 26))
        mcs = pick(rng, [[0], [5, 6]])
        ev = random_events(rng, L, 1, mcs, nan=False)
        return {"ev": [sig_event(rng, ev, bool(rng.random() < .6), n, int(rng.integers(1, n // 2 + 1)), 1, 3, "script", bool(rng.random() < .5))]}
    sessions += run.pmap(longer, range(run.n(60, 800)), 3)

    def parts(k, rng):
        import seismostats.analysis.b_significant as B
        ev = []
        # cutting
        L, n = int(rng.integers(0, 25)), int(rng.integers(1, 9))
        off = int(rng.integers(0, n + 1)) if rng.random() < .9 else n + 3
        v = [int(x) for x in rng.integers(0, 50, L)]
        arg = pick(rng, [np.array(v), list(v), pd.Series(v, index=np.arange(L) + 7, dtype=int), np.array(v, dtype=float)])
        b = snap(arg)
        r, err = call(B.cut_constant_idx, arg, n, off) if off or rng.random() < .5 else call(B.cut_constant_idx, arg, n)
        ev.append({"op": "cut", "vals": v, "n": n, "off": off, "err": err, "idx": [] if err else [small_int(x) for x in r[0]], "pieces": [] if err else [[small_int(x) for x in p] for p in r[1]], "unchanged": same(b, snap(arg))})
        # Moran's I
        long = rng.random() < .03
        L = int(rng.integers(2, 8)) if rng.random() < .95 else int(rng.integers(0, 2))
        L = int(pick(rng, [60, 150, 410])) if long else L
        v = [NOTINT - 1 if rng.random() < .15 else int(x) for x in rng.integers(0, 3 if long else 6, L)]
        if rng.random() < .1:
            v = [3] * L
        hasw = rng.random() < .7 and L < 200
        w = []
        if hasw:
            up = np.triu((rng.random((L, L)) < .5).astype(int), 1)
            w = pick(rng, [up, up.T, up + up.T])
            if rng.random() < .25 and L:
                w = w.copy()
                i, j = int(rng.integers(L)), int(rng.integers(L))
                w[i, j] = pick(rng, [1, 1, 2, -1, 0] if i != j else [0, 1])
            if rng.random() < .15:
                w = w + np.diag(rng.integers(0, 2, L))
            if rng.random() < .07:
                w = np.hstack([w, np.zeros((L, 1), dtype=int)])
            w = w.astype(pick(rng, [int, float]))
        mean = [int(rng.integers(0, 3)), 2] if long else NAN if rng.random() < .6 else [int(rng.integers(0, 13)), 2]
        arr = np.array([np.nan if x == NOTINT - 1 else x for x in v], dtype=float)
        arr = arr.astype(int) if NOTINT - 1 not in v and rng.random() < .3 else arr if rng.random() < .7 else list(arr)
        kw = ({"w": w} if hasw else {}) | ({} if mean == NAN else {"mean_v": mean[0] / mean[1]})
        b = snap(arr, w)
        r, err = call(B.est_morans_i, arr, **kw)
        ev.append({"op": "moran", "v": v, "hasw": bool(hasw), "w": [[int(x) for x in row] for row in w] if hasw else [], "mean": mean if mean == NAN else [mean[0], mean[1]], "err": err,
                   "ac": BAD if err else rat(r[0], 5000000) if long else rat(r[0]), "n": 0 if err else small_int(r[1]), "np": 0 if err else small_int(r[2]), "unchanged": same(b, snap(arr, w))})
        # transformation between numbers of events
        p, q = int(rng.integers(1, 6)), int(rng.integers(1, 7))
        u = int(rng.integers(1, 12))
        bt = [int(rng.integers(1, 9)), int(rng.integers(1, 5))]
        be = [[int(rng.integers(1, 12)), int(rng.integers(1, 6))] for _ in range(int(rng.integers(1, 5)))]
        barr = np.array([x / y for x, y in be])
        scalar = len(be) == 1 and rng.random() < .6
        n1, n2 = p * p * u, q * q * u
        arrs = rng.random() < .4 and not scalar
        a1, a2 = (np.full(len(be), n1), np.full(len(be), n2)) if arrs else (n1, n2)
        b = snap(barr, a1, a2)
        r, err = call(B.transform_n, float(barr[0]) if scalar else barr, bt[0] / bt[1], a1, a2)
        ev.append({"op": "transform", "be": be, "bt": bt, "p": p, "q": q, "err": err, "out": [] if err else [rat(x, 200000) if abs(x) < 1e9 else INF for x in np.atleast_1d(r)], "unchanged": same(b, snap(barr, a1, a2))})
        # values of given groups
        g = int(rng.integers(0, 5))
        D, P = pick(rng, [0, 1, 2]), 11
        mul = 2 if D == 2 else 1
        groups, mcs = [], []
        one = rng.random() < .4
        for _ in range(g):
            sz = int(rng.integers(0, 6)) if rng.random() < .9 else 25
            groups.append([{"m": int(a) * mul, "t": int(t)} for a, t in zip(rng.integers(-2, 9, sz), rng.permutation(3 * sz + 1))])
            mcs.append(int(rng.integers(-2, 5)) * mul)
        if one and g:
            mcs = [mcs[0]] * g
        tk = pick(rng, ["int", "float", "dt"])
        lm = [np.array([e["m"] / 10 for e in gr]) for gr in groups]
        lt = [np.array(times_as([e["t"] for e in gr], tk)) for gr in groups]
        if rng.random() < .3:
            lm, lt = [list(x) for x in lm], [list(x) for x in lt]
        mcv = mcs[0] / 10 if one and g else np.array(mcs) / 10 if rng.random() < .5 else [x / 10 for x in mcs]
        mis = g > 0 and rng.random() < .08
        if mis:
            which = int(rng.integers(2))
            if which or one:
                lt = lt[:-1]
            else:
                mcv = list(mcv) + [1.]
        b = snap(lm, lt, mcv)
        r, err = call(B.values_from_partitioning, lm, lt, mcv, D / 10, method=scripted(P))
        ev.append({"op": "values", "groups": groups, "mcs": mcs, "D": D, "P": P, "mismatch": bool(mis), "err": err,
                   "out": [] if err else [{"v": NOTINT - 1 if math.isnan(x) else small_int(x), "n": small_int(y)} for x, y in zip(r[0], r[2])], "unchanged": same(b, snap(lm, lt, mcv))})
        return {"ev": ev}
    sessions += run.pmap(parts, range(run.n(800, 9000)), 4)
    run.judge("TraceBSignificant", sessions)
    run.assumptions += ["ties in the ordering variable or in the times are outside the domain (their order is not defined)",
                        "values of the real estimators are rounded to multiples of 0.1 before the analysis uses them (the estimators themselves are judged in C04-C08)"]
