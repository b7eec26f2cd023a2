"""C31 - reference distances of the Kolmogorov-Smirnov test."""
import numpy as np
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
# bins up to the tail, per ratio and sample size: a^(K n) stays below 2^31
SIZES = {(2, 1): {1: 14, 2: 10, 3: 8, 4: 6}, (3, 2): {2: 9, 3: 6}, (3, 1): {1: 9, 2: 8, 3: 6, 4: 4}, (4, 1): {2: 7, 3: 5, 4: 3}, (10, 1): {2: 4, 3: 3}}
UNITS = [.1, .01, .05, .2, 1., .5]


def law(rng, q, n):
    return [int(x) - 1 for x in rng.geometric(1 - q[1] / q[0], n)]


def count(p, n):
    try:
        x = float(p) * n
    except Exception:
        return NOTINT
    return int(round(x)) if math.isfinite(x) and abs(x - round(x)) < 1e-6 else NOTINT


def sample(rng, q, n, K):
    while True:
        v = law(rng, q, n) if rng.random() < .7 else [int(x) for x in rng.integers(0, K, n)]
        if max(v) < K:
            return v


def test_event(rng, q, n, K, w, N):
    from seismostats.analysis.estimate_mc import ks_test_gr
    u = pick(rng, UNITS)
    mc = int(rng.integers(-20, 30))
    v = sample(rng, q, n, K)
    m = np.array([round((mc + k) * u, 10) for k in v])
    b = math.log10(q[0] / q[1]) / u
    kw = {"weights": pick(rng, [np.array(w, float), np.array(w)])} if w else {}
    keep = snap(m, *kw.values())
    np.random.seed(int(rng.integers(2 ** 31)))
    r, err = call(ks_test_gr, m, pick(rng, [float, np.float64])(round(mc * u, 10)), u, b, n=N, **kw)
    ww = list(w) if w else [1] * n
    e = {"op": "test", "m": v, "w": ww, "q": list(q), "K": K, "n": N, "err": err, "same": same((m, *kw.values()), keep), "hist": [], "other": 0, "ge": 0, "nref": 0}
    if not err:
        e["ge"] = count(r[0], N)
        ds = np.asarray(r[2], float).ravel()
        e["nref"] = len(ds)
        x = ds * sum(ww) * q[0] ** K
        good = np.abs(x - np.round(x)) < 1e-4
        k, c = np.unique(np.round(x[good]).astype(int), return_counts=True)
        e["hist"], e["other"] = [[int(a), int(b)] for a, b in zip(k, c)], int((~good).sum())
    return e


def search_event(rng, N):
    from seismostats.analysis.estimate_mc import estimate_mc_ks
    q = pick(rng, [(2, 1), (3, 1), (3, 2), (4, 1)])
    n = pick(rng, [k for k in SIZES[q] if k > 1])
    K = SIZES[q][n]
    u = pick(rng, UNITS)
    lo = int(rng.integers(-20, 30))
    v = sample(rng, q, n, K)
    cand = sorted({int(x) for x in rng.integers(0, max(1, max(v)), pick(rng, [1, 2, 3]))})
    m = np.array([round((lo + k) * u, 10) for k in v])
    cs = [round((lo + c) * u, 10) for c in cand]
    cs = [cs[int(i)] for i in rng.permutation(len(cs))]
    cs = pick(rng, [list, np.array])(cs)
    keep = snap(m, cs)
    np.random.seed(int(rng.integers(2 ** 31)))
    r, err = call(estimate_mc_ks, m, u, mcs_test=cs, b_value=math.log10(q[0] / q[1]) / u, n=N, stop_when_passed=False, p_value_pass=float(pick(rng, [.05, .1, .5])))
    e = {"op": "search", "m": v, "cand": cand, "q": list(q), "K": K, "n": N, "err": err, "same": same((m, cs), keep), "ges": []}
    if not err:
        e["ges"] = [count(p, N) for p in r[1]["p_values"]]
    return e


def average(item, rng):
    from seismostats.analysis.estimate_mc import ks_test_gr
    q, n, u = item
    ps, err = [], ""
    np.random.seed(int(rng.integers(2 ** 31)))
    for _ in range(60):
        v = law(rng, q, n)
        if len(set(v)) < 2:
            continue
        mc = int(rng.integers(-20, 30))
        m = np.array([round((mc + k) * u, 10) for k in v])
        r, err = call(ks_test_gr, m, round(mc * u, 10), u, math.log10(q[0] / q[1]) / u, n=100)
        if err:
            break
        ps.append(float(r[0]))
    return {"ev": [{"op": "average", "who": [list(q), n], "err": err, "p": int(round(1e4 * np.mean(ps))) if ps else NOTINT}]}


def session(case, rng, N=1500):
    if case is None:
        return {"ev": [search_event(rng, 400)]}
    q, w = tuple(case["q"]), case["w"]
    n = len(w)
    K = SIZES[q].get(n)
    if K is None:
        q = (2, 1) if n > 1 else q
        K = SIZES[q][n]
    return {"ev": [test_event(rng, q, n, K, None if len(set(w)) == 1 and rng.random() < .7 else w, N)]}


def main(run):
    inv = ["BinsAgree", "MassKept", "OneEvent", "Scaled", "Mirror", "Emit"]
    cases = run.model("MCKsReference", cfg(constants={"Ratios": "{<<2, 1>>, <<3, 2>>, <<3, 1>>, <<4, 1>>}", "Weightings": run.n("{<<1>>, <<1, 1>>, <<1, 2>>, <<1, 1, 1>>, <<1, 0, 2>>, <<3, 1, 1>>}", "{<<1>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<1, 1, 1>>, <<1, 0, 2>>, <<3, 1, 1>>, <<1, 2, 4>>, <<1, 1, 1, 1>>, <<1, 2, 1, 3>>}"),
                                                      "Bins": run.n("{3, 4, 5}", "{3, 4, 5, 6}")}, invariants=inv))
    seen = {(tuple(c["q"]), tuple(c["w"])): c for c in cases if len(c["w"]) > 1}
    cases = list(seen.values()) + [{"q": list(q), "w": [1] * n} for q in SIZES for n in SIZES[q] if n > 1] + [{"q": [2, 1], "w": w} for w in ([1, 2, 1, 1], [1, 2], [2, 3, 1])]
    s = run.pmap(session, cases * run.n(3, 40), 1) + run.pmap(session, [None] * run.n(200, 3000), 2)
    s += run.pmap(average, [((2, 1), 50, .1), ((5, 4), 200, .01), ((3, 2), 120, .05), ((10, 9), 300, .1), ((3, 1), 400, 1.), ((3, 2), 2500, .1), ((5, 4), 8000, .05)] * run.n(1, 6), 3)
    run.judge("TraceKsReference", s)
    run.assumptions += ["magnitudes and completeness are multiples of the bin width", "exact distributions for samples of up to four events (seven standard deviations of 1500 draws); larger samples by the average of their p-values"]
