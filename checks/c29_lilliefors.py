"""C29 - Lilliefors test of the exponential law."""
import numpy as np
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]


def prob(p):
    try:
        p = float(p)
    except Exception:
        return NOTINT
    return int(round(p * 1e6)) if math.isfinite(p) and abs(p) < 2000 else NOTINT


def test_event(rng, ks, unit, mc):
    """ks: integers above mc (in units)"""
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
    m = np.array([mc + k * unit for k in ks], float)
    keep = snap(m)
    p, err = call(ks_test_gr_lilliefors, m, pick(rng, [mc, np.float64(mc)]))
    return {"op": "test", "m": [int(k) for k in ks], "mc": 0, "dmc": 0, "pos": False, "w": 0, "err": err, "p": 0 if err else prob(p), "same": same((m,), keep)}


def est_event(rng, ms, mc, dmc, unit, off, binned):
    """ms: integers; binned: bins of width unit, else continuous in half units"""
    from seismostats.analysis import ClassicBValueEstimator, BPositiveBValueEstimator, UtsuBValueEstimator
    pos = dmc is not None
    D = unit if binned else 0
    m = np.array([off + k * unit for k in ms], float)
    if binned:
        m = np.round(m, 10)
    est = BPositiveBValueEstimator() if pos else pick(rng, [ClassicBValueEstimator, UtsuBValueEstimator] if binned else [ClassicBValueEstimator])()
    kw = {"dmc": dmc * unit if binned else (dmc + .5) * unit} if pos else {}
    lo = off + mc * unit if binned else off + (mc - .5) * unit
    def run_():
        est.calculate(m, mc=round(lo, 10) if binned else lo, delta_m=D, **kw)
        b, n, mags = est.b_value, est.n, snap(np.asarray(est.magnitudes))
        p = est.p_lilliefors(**({"n": int(pick(rng, [1, 3, 20]))} if binned else {}))
        return p, b == est.b_value and n == est.n and same((np.asarray(est.magnitudes),), mags)
    keep = snap(m)
    r, err = call(run_)
    e = {"op": "est", "err": err, "p": 0, "same": same((m,), keep), "pos": pos, "w": 1 if binned else 0}
    if binned:
        e.update(m=[int(k) for k in ms], mc=mc, dmc=dmc or 0)
    else:                                   # in half units
        e.update(m=[2 * int(k) for k in ms], mc=2 * mc - 1, dmc=2 * dmc + 1 if pos else 0)
    if not err:
        e["p"], ok = prob(r[0]), r[1]
        e["same"] = e["same"] and ok
    return e


def sample(rng, n):
    k = int(rng.integers(5))
    s = float(pick(rng, [5, 20, 60]))
    x = [lambda: rng.exponential(s, n), lambda: rng.exponential(s, n), lambda: rng.uniform(0, 2 * s, n), lambda: rng.gamma(rng.uniform(.5, 3), s, n), lambda: s + rng.exponential(s, n)][k]()
    return [int(v) for v in np.minimum(np.floor(x), 3000)]


def session(case, rng):
    ev = []
    if case is not None:
        ks = list(case["v"])
        if len(ks) < 3:
            ks = ks * 2
        base = [ks, [k * 2 for k in ks], [ks[int(i)] for i in rng.permutation(len(ks))]]
    else:
        n = int(pick(rng, [3, 4, 5, 8, 12, 30, 60, 100, 250]))
        base = []
        for _ in range(3):
            ks = sample(rng, n)
            ks[0] = max(ks[0], 1)
            base += [ks, [ks[int(i)] for i in rng.permutation(n)]]
            if max(ks) < 1000:
                base.append([3 * k for k in ks])
    for ks in base:
        if rng.random() < .04:
            ks = list(ks) + [-int(rng.integers(1, 9))]
        ev.append(test_event(rng, ks, float(pick(rng, [.01, .1, .025, 1., .001])), float(pick(rng, [0., 1., 2.3, -1.5, .05]))))
    if case is None:
        for _ in range(2):
            n = int(pick(rng, [8, 20, 50, 120]))
            mc = int(rng.integers(0, 8))
            ms = [int(v) for v in rng.integers(0, mc + 1, n // 4)] + [mc + k for k in sample(rng, n)]
            ms = [ms[int(i)] for i in rng.permutation(len(ms))]
            up = [x for x in ms if x >= mc]
            if sum(x - mc for x in up) > 0:
                ev.append(est_event(rng, ms, mc, None, float(pick(rng, [.01, .013, .1])), float(pick(rng, [0., 1.1, -.4])), False))
            dmc = int(rng.integers(0, 5))
            d = [b - a for a, b in zip(up, up[1:]) if b - a > dmc]
            if len(d) >= 3 and sum(d) > 0:
                ev.append(est_event(rng, ms, mc, dmc, float(pick(rng, [.01, .013, .1])), float(pick(rng, [0., 1.1, -.4])), False))
            D = float(pick(rng, [.1, .01, .05, .2]))
            off = round(int(rng.integers(-5, 15)) * D, 10)
            s = pick(rng, [6, 15, 30])
            mb = [int(v) for v in rng.exponential(s, n)]
            if rng.random() < .4:
                mb = [int(v) for v in rng.uniform(0, 2 * s, n)]
            mb = [min(v, int(5 / D)) for v in mb] + [mc, mc + 1, mc + 3]
            up = [x for x in mb if x >= mc]
            if len(set(up)) > 3 and not all((x - up[0]) % 2 == 0 or (x - up[0]) % 5 == 0 for x in up):
                ev.append(est_event(rng, mb, mc, None, D, off, True))
            dm = int(rng.integers(1, 4))
            d = [b - a for a, b in zip(up, up[1:]) if b - a >= dm]
            if len(d) >= 5 and len({x % 10 for x in d}) > 2 and not any(all((x - d[0]) % q == 0 for x in d) for q in (2, 3, 5)):
                ev.append(est_event(rng, mb, mc, dm, D, off, True))
    return {"ev": ev}


def calibration(item, rng):
    """average p-value of samples that do follow the exponential law"""
    from seismostats import analysis as A
    name, s, N, D = item
    n, S = 400, 80
    ps, err = [], ""
    for _ in range(S):
        mc = int(rng.integers(-5, 20))
        while True:
            ks = np.floor(rng.exponential(s, n)).astype(int)
            if ks.max() * D < 6 and len(np.unique(ks)) > 2:
                break
        m = np.round((ks + mc) * D, 10)
        est = getattr(A, name)()
        def run_():
            est.calculate(m, mc=round(mc * D, 10), delta_m=D)
            return float(est.p_lilliefors(n=N))
        p, err = call(run_)
        if err:
            break
        ps.append(p)
    return {"ev": [{"op": "average", "who": name, "err": err, "n": len(ps), "p": prob(np.mean(ps)) if ps else NOTINT}]}


def main(run):
    inv = ["WalkIsSpec", "InRange", "OrderFree", "UnitFree", "RepeatsKeep", "Brackets", "Inside", "Exponential", "LevelsFall", "Emit"]
    cases = run.model("MCLilliefors", cfg(constants={"Vals": run.n("{0, 1, 2, 4, 7}", "{0, 1, 2, 3, 5, 8, 13}"), "MaxN": "4"}, invariants=inv))
    run.judge("TraceLilliefors", run.pmap(session, cases, 1) + run.pmap(session, [None] * run.n(500, 8000), 2)
              + run.pmap(calibration, [(e, s, N, D) for e in ("ClassicBValueEstimator", "UtsuBValueEstimator", "BPositiveBValueEstimator")
                                       for s, N, D in ((1, 20, .2), (4, 3, .1), (15, 5, .01)) for _ in range(run.n(1, 6))], 3))
    run.assumptions += ["samples of at least three events that do not all lie at the lower bound", "distances are computed to about 0.001; p-values are compared with Stephens' critical values within 0.12 of the modified distance, and exactly among samples of equal shape"]
