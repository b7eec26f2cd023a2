"""C33 - exported helper functions against their closed forms."""
import numpy as np
import pandas as pd
from vh import *

pick = lambda rng, l: l[int(rng.integers(len(l)))]
RATIOS = [(2, 1), (3, 2), (4, 3), (5, 4), (3, 1), (5, 3), (7, 5)]
LN10 = np.log(10)


def hold(rng, x):
    """the same numbers in another container"""
    x = np.array(x, dtype=float)
    return pick(rng, [lambda: x, lambda: x, lambda: pd.Series(x), lambda: pd.Series(x, index=np.arange(len(x))[::-1] + 3)])()


def fix(x):
    return [int(round(float(v) * 1e6)) if np.isfinite(v) and abs(v) < 2000 else NOTINT for v in np.atleast_1d(np.asarray(x, dtype=float))]


def same(a, b):
    return all(np.array_equal(np.asarray(x, dtype=float), np.asarray(y, dtype=float), equal_nan=True) for x, y in zip(a, b))


def convert(rng):
    import seismostats.analysis as an
    x = int(rng.integers(-40, 400))
    d = int(pick(rng, [1, 2, 10, 100]))
    arr = rng.random() < .5
    v = np.array([x / d, 1.]) if arr else x / d
    one = lambda z: float(np.asarray(z).ravel()[0])
    be, e1 = call(an.b_value_to_beta, v)
    b, e2 = call(an.beta_to_b_value, v)
    back, e3 = call(lambda: an.beta_to_b_value(an.b_value_to_beta(v)))
    err = e1 or e2 or e3
    e = {"k": "convert", "x": rat(x / d), "err": err, "beta": [0, 0], "b": [0, 0], "back": [0, 0], "kept": not arr or list(v) == [x / d, 1.]}
    if not err:
        e |= {"beta": rat(one(be) / LN10), "b": rat(one(b) * LN10), "back": rat(one(back))}
    return e


def line(rng):
    from seismostats.plots import gutenberg_richter
    p, q = pick(rng, RATIOS[:4])
    u = pick(rng, [.1, .05, .5, 1., .2])
    mc = int(rng.integers(-20, 40))
    n = int(rng.integers(1, 50))
    m = [mc + int(k) for k in rng.integers(-4, 5, int(rng.integers(1, 8)))]
    b = np.log10(p / q) / u
    x = hold(rng, [round(k * u, 10) for k in m])
    c = x.copy()
    r, err = call(gutenberg_richter, x, b, round(mc * u, 10), n)
    return {"k": "line", "m": m, "mc": mc, "n": n, "r": [p, q], "err": err, "y": [] if err else [rat(v) for v in np.asarray(r)], "kept": same([x], [c])}


def cdf(rng):
    from seismostats.analysis.estimate_mc import cdf_discrete_exp
    p, q = pick(rng, RATIOS[:3])
    D = int(rng.integers(0, 4))
    u = pick(rng, [.1, .05, .5, 1.])
    mc = int(rng.integers(-20, 40))
    m = [mc + int(k) for k in rng.integers(-3 if rng.random() < .4 else 0, 5, int(rng.integers(1, 9)))]
    x = hold(rng, [round(k * u, 10) for k in m])
    c = x.copy()
    r, err = call(cdf_discrete_exp, x, round(mc * u, 10), D * u, np.log(p / q) / u)
    return {"k": "cdf", "m": m, "mc": mc, "D": D, "r": [p, q], "err": err, "x": [] if err else [units(v, u) for v in r[0]],
            "y": [] if err else [rat(v) for v in r[1]], "kept": same([x], [c])}


def shibolt(rng):
    from seismostats.analysis import shi_bolt_confidence
    n = int(pick(rng, [0, 1, 1, 2, 3, 4, 5, 6, 8]))
    u = pick(rng, [.1, .05, .5, 1., .2])
    m = [int(x) for x in rng.integers(-10, 30, n)]
    if rng.random() < .15 and n:
        m = [m[0]] * n
    weighted = rng.random() < .6 and n > 0
    w2 = [int(x) for x in rng.integers(0, 5, n)] if weighted else [2] * n
    if weighted and sum(w2) == 0:
        w2[0] = 1
    b = int(rng.integers(5, 30)) / 10
    par = pick(rng, [None, "b_value", "beta", "beta"]) if rng.random() < .9 else pick(rng, ["b", "Beta", ""])
    x = hold(rng, [k * u for k in m])
    w = None
    if weighted:
        w = np.array(w2) / 2
        w = pick(rng, [lambda: w, lambda: list(w)])()
    c = [x.copy(), np.array(w if weighted else [])]
    kw = {} if par is None else {"b_parameter": par}
    if weighted or rng.random() < .5:
        kw["weights"] = w
    r, err = call(shi_bolt_confidence, x, b, **kw)
    known = par in (None, "b_value", "beta")
    ok = not err and np.isfinite(r)
    s = float(r) / (b * b * (1 if par == "beta" else LN10)) if ok else np.nan
    return {"k": "shibolt", "m": m, "w": [rat(k / 2) for k in w2], "known": known, "err": err, "finite": bool(ok),
            "s2": rat((s / u) ** 2) if ok else [0, 0], "kept": same([x, w if weighted else []], c)}


def circle(rng):
    from seismostats.analysis.declustering.utils import haversine
    n = int(rng.integers(1, 12))
    t = {"lat": int(pick(rng, [0, 30, 45, 60, 90, -45, -90, int(rng.integers(-90, 91)), int(rng.integers(-90, 91))])), "lon": int(rng.integers(-180, 181))}
    p = []
    for _ in range(n):
        k = int(rng.integers(6))
        lat = pick(rng, [t["lat"], -t["lat"], 0, int(rng.integers(-90, 91))])
        d = [0, 180, 90, pick(rng, [60, 120, 240, 300]), int(rng.integers(0, 360)), 180][k]
        if k == 5:
            lat = -t["lat"]
        p.append({"lat": int(lat), "lon": int((t["lon"] + d + 180) % 360 - 180)})
    R = pick(rng, [None, None, 1., 6371., 100.])
    kw = {} if R is None else {"earth_rad": R}
    lon, lat = hold(rng, [x["lon"] for x in p]), hold(rng, [x["lat"] for x in p])
    if type(lon) is not type(lat) or not isinstance(lon, np.ndarray):
        lon, lat = np.asarray(lon), np.asarray(lat)
    c = [lon.copy(), lat.copy()]
    RR = R or 6371.227
    ang = lambda v: np.asarray(v, dtype=float) / RR / np.pi * 180
    r, err = call(haversine, lon, lat, t["lon"], t["lat"], **kw)
    e = {"k": "circle", "p": p, "t": t, "err": err, "a": [], "c": [], "again": [], "opp": []}
    if not err:
        e["a"] = fix(ang(r))
        e["c"] = [rat(float(np.cos(x / 180 * np.pi)), tol=1e-9) if np.isfinite(x) else [7, 0] for x in np.atleast_1d(ang(r))]
        sh = int(rng.integers(-179, 180))
        back = [call(haversine, np.array([float(t["lon"])]), np.array([float(t["lat"])]), float(x["lon"]), float(x["lat"]), **kw)[0] for x in p]
        e["again"] = [fix([np.nan if v is None else ang(v).ravel()[0] for v in back])]
        for lo, la, tlo, tla in ((lon + sh, lat, t["lon"] + sh, t["lat"]), (lon, -lat, t["lon"], -t["lat"]), (-lon, lat, -t["lon"], t["lat"]), (lon + 360, lat, t["lon"], t["lat"])):
            v, er = call(haversine, lo, la, tlo, tla, **kw)
            e["again"].append([] if er else fix(ang(v)))
        v, er = call(haversine, lon, lat, t["lon"] + 180, -t["lat"], **kw)
        e["opp"] = [] if er else fix(ang(v))
    e["kept"] = same([lon, lat], c)
    return e


def session(item, rng):
    return {"ev": [pick(rng, [convert, line, cdf, shibolt, shibolt, circle, circle])(rng) for _ in range(8)]}


def main(run):
    base = {"MaxLen": str(run.n(3, 4)), "Vals": "{0, 1, 4}", "Ws": "{<<1, 1>>, <<2, 1>>, <<1, 2>>}", "Ratios": "{<<2, 1>>, <<3, 2>>, <<4, 3>>}", "MaxK": "8"}
    run.model("MCFormulas", cfg(constants=base, invariants=["RunningRight", "Repeat", "Offset", "MassRight", "Sphere"]))
    sess = run.pmap(session, [None] * run.n(400, 6000))
    run.judge("TraceFormulas", sess)
    run.assumptions += ["angles at whole degrees; for pairs without an elementary angle bounds, symmetry and the opposite point decide"]
