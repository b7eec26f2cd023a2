"""C24 - the warnings option."""
import contextlib, datetime, io, subprocess, sys, warnings
import numpy as np
import pandas as pd
from vh import *
import heap
import c23_purity as pur

pick = lambda rng, l: l[int(rng.integers(len(l)))]
U = .1
N = NOTINT - 1
F = lambda l: np.array([np.nan if x == N else round(x * U, 10) for x in l], dtype=float)


def watched(fn):
    """(result, error, messages the library itself warned with, what was printed)"""
    out = io.StringIO()
    r, err = None, ""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        np.random.seed(5)
        try:
            with limit(30):
                r = fn()
        except CallTimeout:
            err = "Timeout"
        except Exception as e:
            err = type(e).__name__
    own = {str(x.message) for x in w if issubclass(x.category, UserWarning) and "site-packages" not in x.filename}
    return r, err, own, out.getvalue()


def estimator_talk(an):
    """what an estimator says about its sample, to be told apart from what its user says"""
    from seismostats.utils import set_option
    set_option("warnings", True)
    s = set()
    for m, mc in (([2.], 1.), ([1.], 2.)):
        s |= watched(lambda: an.ClassicBValueEstimator().calculate(np.array(m), mc=mc, delta_m=.1))[2]
    return s


def sample(rng, D, lo, n, wide=5):
    m = [lo + D * int(x) for x in np.minimum(rng.geometric(.4, n) - 1, wide)]
    if rng.random() < .3 and n:
        m[int(rng.integers(n))] = N
    return m


def situation(rng, an, talk):
    """(event, function): a call in a situation that may or may not deserve a warning"""
    from seismostats.analysis import estimate_mc as em, b_significant as bs
    import seismostats.plots as pl
    from seismostats import Catalog
    op = pick(rng, ["b", "b", "b+", "b++", "a", "a+", "a++", "kstest", "ks", "ks", "stab", "stab", "table", "moran", "significant", "sigplot", "other", "wrong"])
    D = pick(rng, [1, 2, 3])
    lo = int(rng.integers(5, 12))
    n = int(rng.integers(0 if rng.random() < .2 else 1, 7))
    m = sample(rng, D, lo, n)
    if all(x == N for x in m):
        m = [x if x != N else lo for x in m]
    mc = lo + D * int(rng.integers(-2, 4))
    e = {"op": op, "m": m, "mc": mc, "D": D, "random": False}
    a = dict(mc=mc * U, delta_m=D * U)
    dmc = D * int(rng.integers(0, 3)) if rng.random() < .7 or D == 2 else int(rng.integers(0, D + 1))
    given = rng.random() < .7
    t = np.arange(len(m)) + 3.
    if op == "b":
        c = pick(rng, [an.ClassicBValueEstimator, an.UtsuBValueEstimator])
        k = int(rng.integers(3))
        w = np.ones(len(m)) if rng.random() < .5 else None
        if k == 0:
            return e, lambda: [(lambda o: [o.calculate(F(m), weights=w, **a), o.n, o.magnitudes])(c())]
        if k == 1:
            return e, lambda: an.estimate_b(F(m), a["mc"], a["delta_m"], weights=w, method=c)
        return e, lambda: Catalog({"magnitude": F(m)}).estimate_b(mc=a["mc"], delta_m=a["delta_m"], method=c).value
    if op in ("b+", "b++"):
        c = an.BPositiveBValueEstimator if op == "b+" else an.BMorePositiveBValueEstimator
        e["dmc"] = dmc if given else D
        kw = dict(dmc=dmc * U) if given else {}
        if rng.random() < .5:
            kw["times"] = t
        return e, (lambda: c().calculate(F(m), **a, **kw)) if rng.random() < .5 else (lambda: an.estimate_b(F(m), a["mc"], a["delta_m"], method=c, **kw))
    if op == "a":
        return e, lambda: an.ClassicAValueEstimator().calculate(F(m), **a)
    if op in ("a+", "a++"):
        c = an.APositiveAValueEstimator if op == "a+" else an.AMorePositiveAValueEstimator
        e["dmc"] = dmc if given else D
        kw = dict(dmc=dmc * U) if given else {}
        p = rng.permutation(len(m))
        if rng.random() < .3:
            e["m"] = m = sorted(m, reverse=True)
            m = e["m"]
        return e, lambda: c().calculate(F(m)[p], times=t[p], b_value=1., **a, **kw)
    if op == "kstest":
        e["m"] = m = [x for x in m if x != N]
        e["random"] = True
        return e, lambda: list(em.ks_test_gr(F(m), a["mc"], a["delta_m"], 1., n=4))
    if op == "ks":
        e["D"] = D = 4
        given = rng.random() < .5
        m = sample(rng, D, lo, int(rng.integers(1, 9)), 3)
        m = [lo if x == N and len(m) == 1 else x for x in m]
        if given and rng.random() < .4 and len(m) > 1:
            m[0] = m[0] + 1 if m[0] != N else N
        cand = [lo + D * int(x) for x in rng.integers(-1, 4, int(rng.integers(0 if rng.random() < .2 else 1, 4)))]
        if rng.random() < .3 and cand:
            cand[0] += 1
        e |= {"m": m, "mcs": cand, "given": given, "random": True}
        if all(x == N for x in m):
            e["m"] = m = [lo]
        if rng.random() < .1 and given:
            e["m"] = m = []
        return e, lambda: list(em.estimate_mc_ks(F(m), D * U, mcs_test=list(F(cand)), stop_when_passed=False, n=4, **({"b_value": 1.} if given else {})))
    if op == "stab":
        e["D"] = D = 4
        m = sample(rng, D, lo, int(rng.integers(5, 60)), 4)
        if all(x == N for x in m):
            m = [lo] * 5
        cand = [lo + D * int(x) for x in rng.integers(-2, 3, int(rng.integers(1, 4)))]
        if rng.random() < .3:
            cand[0] += 1
        rg = pick(rng, [4, 8])
        e |= {"m": m, "mcs": cand, "range": rg}
        return e, lambda: list(em.estimate_mc_b_stability(F([x for x in m if x != N]), D * U, mcs_test=list(F(cand)), stop_when_passed=False, stability_range=rg * U))
    if op == "table":
        k = int(rng.integers(20, 40))
        m = [40 + int(x) for x in rng.geometric(.2, k) - 1]
        lowest = pick(rng, [38, 40, 41])
        e |= {"m": m, "lowest": lowest}
        yt = [datetime.datetime(1950 + int(y), 2, 3) for y in rng.integers(0, 60, k)]
        tb = np.array([[round(lowest * U, 10), 1980], [round((lowest + 10) * U, 10), 1950]])
        return e, (lambda: an.estimate_b_weichert(F(m), yt, tb, 8.5, last_year=2012)) if rng.random() < .5 else (lambda: an.estimate_b_kijko_smit(F(m), yt, tb, last_year=2012))
    if op == "moran":
        w = np.eye(5, k=1)
        if rng.random() < .5:
            w = w + w.T
        diag = int(rng.integers(0, 3))
        for i in range(diag):
            w[i, i] = 1
        v = rng.integers(0, 9, 5) * .5
        return e | {"diag": diag}, lambda: list(bs.est_morans_i(v, w))
    if op in ("significant", "sigplot"):
        nm = int(rng.integers(2, 5))
        k = int(max(1, pick(rng, [3 * nm, 15 * nm]) + rng.integers(-1, 2)))
        below = int(rng.integers(0, 4))
        mc = lo
        m = [lo - 3 * D] * below + [lo + D * int(x) for x in np.minimum(rng.geometric(.4, k) - 1, 5)]
        m = [int(x) for x in rng.permutation(m)]
        t = np.arange(len(m)) * 1.
        e |= {"m": m, "mc": mc, "n": nm, "talk": True}
        if op == "significant":
            return e, lambda: list(an.b_significant_1D(F(m), mc * U, D * U, t, nm))
        ns = [nm] + ([int(rng.integers(2, 6))] if rng.random() < .5 else [])
        return e | {"ns": ns}, lambda: pur.lines(pl.plot_b_significant_1D(F(m), mc * U, D * U, t, n_ms=ns))
    if op == "wrong":                      # calls that are refused are refused in both settings
        e["op"] = "other"
        x = F([lo, lo + 1, lo + 3, lo + 3])
        return e, pick(rng, [lambda: an.estimate_b(x + np.array([0, .05, 0, 0]), 1., .1), lambda: an.estimate_b(x, 1., .1, weights=[1., -1., 1., 1.]), lambda: an.estimate_b(x, 1., .1, weights=[1.]),
                             lambda: an.estimate_b(x, 1., .1, method=an.BPositiveBValueEstimator, dmc=-.1), lambda: an.estimate_a(x, 1., .1, times=np.arange(4), method=an.AMorePositiveAValueEstimator),
                             lambda: an.estimate_b(x, None, .1), lambda: an.estimate_b([], 1., .1), lambda: an.estimate_b(["a"], 1., .1), lambda: em.estimate_mc_ks(x, .1, mcs_test=[], n=3), lambda: em.estimate_mc_ks(x, .1, mcs_test=[np.nan], b_value=1., n=3),
                             lambda: em.estimate_mc_ks(x + np.array([0, .05, 0, 0]), .1, n=3), lambda: em.estimate_mc_b_stability(x, .1, mcs_test=[9.]), lambda: em.estimate_mc_b_stability(x + np.array([0, .05, 0, 0]), .1, mcs_test=[.4]),
                             lambda: bs.est_morans_i(np.arange(3.), np.arange(9.).reshape(3, 3)), lambda: bs.est_morans_i(np.arange(3.), np.ones((2, 3))), lambda: an.b_significant_1D(x, 1., .1, np.arange(4), 1), lambda: em.estimate_mc_ks(np.array([]), .1, mcs_test=[1.], b_value=1.),
                             lambda: em.ks_test_gr(np.array([]), 1., .1, 1.), lambda: em.ks_test_gr(x, 1., .1, np.nan), lambda: pl.plot_b_significant_1D(x, 1., .1, np.arange(4)), lambda: an.estimate_b_weichert(x, [], np.zeros((0, 2)), 7.),
                             lambda: em.estimate_mc_ks(np.full(3, np.nan), .1, mcs_test=[1.], b_value=1.)])
    i = int(rng.integers(len(pur.OPS)))
    return other(e, i, rng)


def other(e, i, rng):
    o = pur.OPS[i]
    P = pur.pool(rng, int(rng.integers(20, 30)))
    args = [P[x] for x in o["args"]]
    e |= {"op": "other", "name": o["name"], "random": bool(o["random"])}
    return e, lambda: o["f"](*[pur.duplicate(x) for x in args])


def session(item, rng):
    hist, forced = item
    import matplotlib.pyplot as plt
    import seismostats.analysis as an
    import seismostats.utils as ut
    from seismostats.utils import _config
    talk = estimator_talk(an)
    C = heap.Contents()
    sets, gets = [ut.set_option, _config.set_option], [ut.get_option, _config.get_option]
    ev = []

    def put(key, to):
        _, err = call(pick(rng, sets), key, to)
        ev.append({"k": "set", "key": key, "to": bool(to), "err": err})
    put("warnings", True)
    pool = {"A": situation(rng, an, talk) if forced is None else other({"m": [], "mc": 0, "D": 1}, forced, rng), "B": situation(rng, an, talk)}
    for s in hist:
        if s in ("on", "off"):
            put("warnings", s == "on")
        elif s == "bad":
            put(pick(rng, ["warning", "Warnings", "verbose", "", "warnings "]), bool(rng.integers(2)))
        elif s == "get":
            v, err = call(pick(rng, gets), "warnings")
            ev.append({"k": "get", "value": v if isinstance(v, (bool, np.bool_)) else "?" + err})
        else:
            e, f = pool[s[-1]]
            r, err, own, said = watched(f)
            plt.close("all")
            if e.get("talk"):
                own = own - talk
            ev.append({**{k: v for k, v in e.items() if k != "talk"}, "k": "call", "key": s, "err": err, "warned": len(own), "res": C.result([err, said] if err else [r, said])})
    put("warnings", True)
    return {"ev": ev}


def main(run):
    import matplotlib
    matplotlib.use("Agg")
    pur.OPS = pur.ops()
    faults = ["none", "sticky", "unchecked", "reset on error", "captured", "two tables", "always", "never", "once", "dependent", "not restored"]
    master = ["callA", "callA", "callB", "callB", "off", "get", "callA", "callB", "bad", "get", "on", "get", "callA", "callB", "get"]
    cases = run.model("MCOptions", cfg(constants={"Faults": "{" + ",".join(f'"{f}"' for f in faults) + "}", "MaxSteps": str(run.n(5, 6)), "Master": "<<" + ",".join(f'"{s}"' for s in master) + ">>"},
                                       invariants=["NoFalseAlarm", "LastSetWins", "MasterShowsAll", "Emit"]))
    hs = sorted({tuple(c["h"]) for c in cases if any(x.startswith("call") for x in c["h"])}, key=lambda h: (len(h), h))
    rng = run.rng
    items = [(master, None) for _ in range(run.n(700, 12000))] + [(list(pick(rng, hs)), None) for _ in range(run.n(300, 6000))]
    for i, o in enumerate(pur.OPS):
        items += [(["callA", "callA", "off", "callA", "on", "callA"], i)] * run.n(1, 10)
    sess = run.pmap(session, items)
    # the value in a fresh interpreter
    p = subprocess.run([sys.executable, "-c", "import sys; sys.modules['openquake']=None\nfrom seismostats.utils import get_option\nprint(get_option('warnings'))"], capture_output=True, text=True, timeout=120)
    sess.append({"ev": [{"k": "get", "value": p.stdout.strip() == "True"}]})
    if os.environ.get("VERIF_DEBUG"):
        from collections import Counter
        c = Counter((e["op"], e["warned"], bool(e["err"])) for s in sess for e in s["ev"] if e["k"] == "call")
        print(sorted(c.items()))
    run.judge("TraceOptions", sess)
    run.assumptions += ["warnings of the library are those of category UserWarning raised outside site-packages; kinds of warnings are counted by distinct text",
                        "completeness magnitudes lie on the grid of the magnitudes, or off it by less than half a bin"]
