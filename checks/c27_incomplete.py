"""C27 - short-term incompleteness filter."""
import datetime
import numpy as np
import pandas as pd
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
N = NOTINT - 1
UNITS = {"us": 1, "ms": 10 ** 3, "s": 10 ** 6, "m": 60 * 10 ** 6, "ns": 1, "h": 3600 * 10 ** 6}


def event(rng, m, t, w, step, unit, again=None):
    """m in tenths, t in steps of `step` microseconds"""
    from seismostats.analysis.bvalue.utils import make_more_incomplete
    base = np.datetime64("2019-06-30T23:59:59.5", "us")
    if again is None:
        M = np.array([np.nan if x == N else round(x * .1, 10) for x in m], float)
        if rng.random() < .1 and N not in m:
            M = M.astype(object) if rng.random() < .3 else M
        T = (base + np.array(t, dtype="int64") * np.timedelta64(step, "us")).astype("datetime64[us]")
        if unit == "ns":
            T = T.astype("datetime64[ns]")
        if unit == "obj":
            T = np.array(T.tolist(), dtype=object)
        if len(M) == 0:
            T = np.array([], dtype="datetime64[us]")
    else:
        M, T = again
    d = np.timedelta64(w * step, "us")
    kind = int(rng.integers(4))
    if unit == "obj":
        d = datetime.timedelta(microseconds=w * step)
    elif kind == 1:
        d = d.astype("timedelta64[ns]")
    elif kind == 2 and (w * step) % 10 ** 6 == 0:
        d = d.astype("timedelta64[s]")
    elif kind == 3:
        d = pd.Timedelta(d)
    asked = bool(rng.random() < .5)
    keep = snap(M, T)
    a = (M, T) if w * step == 60 * 10 ** 6 and unit != "obj" and rng.random() < .5 else (M, T, d)
    kw = {"return_idx": True} if asked else {} if rng.random() < .5 else {"return_idx": False}
    r, err = call(make_more_incomplete, *a, **kw)
    e = {"m": m, "t": t, "w": w, "err": err, "gm": [], "gt": [], "mask": [], "asked": asked, "again": again is not None, "same": same((M, T), keep)}
    if not err and not (isinstance(r, tuple) and len(r) in (2, 3)):
        e["err"] = err = "no pair of arrays"
    out = None
    if not err:
        e["gm"] = [units(x, .1) for x in r[0]]
        back = lambda x: (np.datetime64(x, "us") - base).astype("int64") if not isinstance(x, pd.Timestamp) else (x.to_datetime64().astype("datetime64[us]") - base).astype("int64")
        e["gt"] = [units(int(back(x)), step) for x in r[1]]
        if len(r) == 3:
            k = np.asarray(r[2])
            e["mask"] = [[bool(x) for x in k]] if k.dtype == bool or k.dtype == object else [[False] * (len(m) + 1)]
        out = (r[0], r[1])
    return e, out


def session(item, rng):
    if item is None:
        n = pick(rng, [0, 1, 2, 5, 10, 20, 40, 90])
        n = int(pick(rng, [260, 420])) if rng.random() < .006 else int(rng.integers(0, n + 1))
        m = [int(x) for x in rng.integers(-5, pick(rng, [0, 5, 60]), n)]
        if n > 3 and rng.random() < .06:              # swarm growing after a large event
            n = int(rng.integers(30, 150))
            m = [400] + [int(x) for x in np.arange(n - 1) * 2 + rng.integers(0, 2, n - 1)]
        if rng.random() < .2 and n:
            m[int(rng.integers(n))] = N
        span = pick(rng, [n, 2 * n, 10 * n + 1]) + 1
        t = [int(x) for x in (rng.choice(span, n, False) if rng.random() < .8 else rng.integers(0, max(1, n // 2) + 1, n))]
        k = int(rng.integers(3))
        if k:
            o = np.argsort(t, kind="stable")[::1 if k == 1 else -1]
            t, m = [t[int(i)] for i in o], [m[int(i)] for i in o]
        if n > 29 and m[0] == 400:
            t = sorted(t)
        w = pick(rng, [0, 1, 2, 3, 5, 10, 1000])
    else:
        m, t, w = [NOTINT - 1 if x == N else x for x in item["m"]], item["t"], item["w"]
    step = pick(rng, [10 ** 6, 60 * 10 ** 6, 1000, 10 ** 7, 1, 86400 * 10 ** 6, 20 * 10 ** 6])
    unit = pick(rng, ["us", "us", "ns", "obj"])
    ev = []
    e, out = event(rng, m, t, w, step, unit)
    ev.append(e)
    for _ in range(int(rng.integers(0, 4))):
        if out is not None and rng.random() < .5 and NOTINT not in e["gm"] and NOTINT not in e["gt"] and e["gm"]:
            e, out = event(rng, e["gm"], e["gt"], e["w"], step, unit, again=out)
        else:
            e, out = event(rng, m, t, int(rng.integers(0, 12)), step, unit)
        ev.append(e)
    return {"ev": ev}


def main(run):
    inv = ["ScanIsSpec", "KeepsInOrder", "WiderHidesMore", "Idempotent", "LargestKept", "NoWindowNoLoss", "FirstKept", "ListingIndifferent", "Emit"]
    cases = run.model("MCIncomplete", cfg(constants={"Mags": "{1, 2, 3}", "MaxN": str(run.n(3, 4)), "MaxT": str(run.n(4, 5)), "Windows": "0..4"}, invariants=inv))
    cases += run.model("MCIncomplete", cfg(constants={"Mags": "{NaNV, 2, 5}", "MaxN": "3", "MaxT": "3", "Windows": "{0, 2, 3}"}, invariants=inv), label="with missing magnitudes")
    rng = run.rng
    cases = [cases[int(i)] for i in rng.permutation(len(cases))[:run.n(1200, 12000)]]
    run.judge("TraceIncomplete", run.pmap(session, cases, 1) + run.pmap(session, [None] * run.n(1200, 15000), 2))
    run.assumptions += ["simultaneous events come in the order in which they are listed"]
