"""C03 - frequency-magnitude distributions and maximum curvature."""
import numpy as np, pandas as pd
from vh import cfg, call, units, NOTINT
from gen import *
from seismostats.utils import get_fmd, get_cum_fmd
from seismostats.analysis import estimate_mc_maxc


def fmd_event(kind, vs, ws, u, w, left, cont, weighted, explicit):
    a = container(mags(vs, u), cont)
    wt = None
    if weighted:
        wt = container([x / 4 for x in ws], "list" if cont == "list" else "array")
    fp = fingerprint([a, wt])
    fn = get_fmd if kind == "fmd" else get_cum_fmd
    kw = {}
    if weighted or explicit:
        kw["weights"] = wt
    if left or explicit:
        kw["bin_position"] = "left" if left else "center"
    r, err = call(fn, a, mag(w, u), **kw)
    e = {"op": kind, "m": vs, "ws": ws if weighted else [1] * len(vs), "w": w, "left": left, "err": err,
         "bins": [], "counts": [], "binned": [], "kept": fingerprint([a, wt]) == fp}
    if not err:
        try:
            b, c, m = r
            e["bins"] = tounits(b, u / 2)
            e["counts"] = tounits(c, 0.25 if weighted else 1.0)
            e["binned"] = tounits(m, u)
        except Exception as ex:
            e["err"] = "shape:" + type(ex).__name__
    return e


def maxc_event(vs, u, w, corr, how):
    m = mags(vs, u)
    e = {"op": "maxc", "m": vs, "w": w, "corr": corr, "err": "", "res": NOTINT, "info": NOTINT, "stored": NOTINT, "kept": True}
    kw = {} if (abs(corr * u - 0.2) < 1e-12 and how % 2) else {"correction_factor": mag(corr, u)}
    if how < 2:
        a = m.copy()
        fp = fingerprint(a)
        r, e["err"] = call(estimate_mc_maxc, a, mag(w, u), **kw)
        e["kept"] = fingerprint(a) == fp
        cat = None
    else:
        cat = base_cat(m, mc=9.0, delta_m=mag(w, u), b_value=1.25)
        fp = fingerprint(pd.DataFrame(cat))
        r, e["err"] = call(cat.estimate_mc_maxc, mag(w, u), **kw)
        e["kept"] = fingerprint(pd.DataFrame(cat)) == fp and cat.b_value == 1.25 and cat.delta_m == mag(w, u)
    if not e["err"]:
        try:
            e["res"] = units(r[0], u)
            e["info"] = units(r[1]["correction_factor"], u)
            e["stored"] = e["res"] if cat is None else units(cat.mc, u)
        except Exception as ex:
            e["err"] = "shape:" + type(ex).__name__
    return e


def main(run):
    cases = run.model("MCFmd", cfg(constants={"Vals": "{-3, -2, -1, 0, 1, 2, 5, 8}", "Wts": "{0, 1, 3}", "W": "2", "MaxLen": run.n(3, 4)},
                      invariants=["Incremental", "Conserved", "Telescopes", "Contiguous", "FullestLowest"] + ["Emit"]),
                      label="growing histograms")
    rng = run.rng
    sessions = []
    pick = rng.permutation(len(cases))[: run.n(600, 5000)]
    for k, i in enumerate(pick):
        c = cases[i]
        u = [0.05, 0.1, 0.5, 0.25][k % 4]
        cont = ["array", "list", "series"][k % 3]
        evs = [fmd_event("fmd", c["m"], c["w"], u, 2, bool(k % 2), cont, bool((k // 2) % 2), bool(k % 5 == 0)),
               fmd_event("cumfmd", c["m"], c["w"], u, 2, bool((k // 3) % 2), cont, bool((k // 4) % 2), bool(k % 5 == 1)),
               fmd_event("cumfmd", c["m"], c["w"], u, 0, False, cont, bool((k // 2) % 2), False),
               maxc_event(c["m"] + ([NANV] if k % 3 == 0 else []), u, 2, [4, 0, -2, 3][k % 4], k % 4)]
        sessions.append({"ev": evs, "u": u})
    for k in range(run.n(250, 3000)):
        u = [0.005, 0.05, 0.01][k % 3]
        w = int(rng.choice({0.005: [20, 40, 100, 10, 4], 0.05: [2, 4, 10, 20], 0.01: [10, 2, 20, 50]}[u]))
        n = int(rng.integers(1, 40)) if k % 50 else int(rng.choice([800, 2500]))
        lo = int(rng.integers(-150, 300))
        span = int(rng.integers(1, 25)) * w
        vs = [int(v) for v in lo + np.minimum(rng.exponential(span / 4, n), span).astype(int)]
        if k % 2:
            vs = [w * (v // w) for v in vs]
        ws = [int(x) for x in rng.integers(0, 7, n)]
        cont = ["array", "list", "series"][k % 3]
        nan = list(vs)
        for j in range(int(rng.integers(0, 3))):
            nan.insert(int(rng.integers(len(nan) + 1)), NANV)
        evs = [fmd_event("fmd", vs, ws, u, w, bool(rng.random() < .5), cont, bool(rng.random() < .5), bool(rng.random() < .3)),
               fmd_event("cumfmd", vs, ws, u, w, bool(rng.random() < .5), cont, bool(rng.random() < .5), bool(rng.random() < .3)),
               fmd_event("cumfmd", vs, ws, u, 0, False, cont, bool(rng.random() < .5), False),
               maxc_event(nan, u, w, int(round(0.2 / u)) if k % 2 else int(rng.integers(-30, 60)), k % 4)]
        sessions.append({"ev": evs, "u": u})
    run.judge("TraceBin", sessions)
