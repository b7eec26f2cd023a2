"""C32 - methods refuse tables that lack the columns they need."""
import re
import numpy as np
import pandas as pd
from vh import *
import heap

pick = lambda rng, l: l[int(rng.integers(len(l)))]
STD = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
CELL = ["longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max", "a", "b", "mc"]
WORDS = STD + CELL + ["catalog_id", "grid_id", "extra_1", "extra_2"]
WHOLE = {"Catalog": STD, "ForecastCatalog": STD + ["catalog_id"], "GRRateGrid": CELL, "ForecastGRRateGrid": CELL}
EXTRA = ["extra_1", "extra_2", "grid_id", "magnitudes", "Magnitude"]


def data(kind, rng, n=45):
    if kind in ("Catalog", "ForecastCatalog"):
        d = {"longitude": rng.integers(0, 20, n) * .5, "latitude": rng.integers(0, 20, n) * .5, "depth": rng.integers(0, 9, n) * 1.,
             "time": pd.Timestamp("2001-02-03") + pd.to_timedelta(rng.permutation(n), unit="h"),
             "magnitude": np.round(1 + .1 * np.minimum(rng.geometric(.25, n) - 1, 15), 1), "magnitude_type": ["ML"] * n}
        d["magnitude"][:4] = [1., 1.1, 1.2, 1.3]
        if kind == "ForecastCatalog":
            d["catalog_id"] = rng.integers(0, 3, n)
        return d
    n = 4
    d = {"longitude_min": np.arange(n) * 1., "longitude_max": np.arange(n) + 1., "latitude_min": np.zeros(n), "latitude_max": np.ones(n),
         "depth_min": np.zeros(n), "depth_max": np.full(n, 5.), "a": rng.integers(0, 9, n) * .5, "b": np.ones(n), "mc": np.full(n, 1.5)}
    if kind == "ForecastGRRateGrid":
        d["grid_id"] = np.array([0, 0, 1, 1])
    return d


def make(kind, d):
    import seismostats as s
    if kind in ("Catalog", "ForecastCatalog"):
        return getattr(s, kind)(d)
    return getattr(s, kind)(d, starttime=pd.Timestamp("2020-01-01"), endtime=pd.Timestamp("2021-01-01"))


CAT = {
    "bin": lambda c: c.bin_magnitudes(.1), "bin in place": lambda c: c.bin_magnitudes(.1, inplace=True),
    "maxc": lambda c: c.estimate_mc_maxc(fmd_bin=.1),
    "stability": lambda c: c.estimate_mc_b_stability(delta_m=.1, mcs_test=[1., 1.1], stability_range=.3),
    "ks": lambda c: c.estimate_mc_ks(delta_m=.1, mcs_test=[1., 1.2], n=3),
    "b": lambda c: c.estimate_b(mc=1., delta_m=.1), "a": lambda c: c.estimate_a(mc=1., delta_m=.1),
    "cum fmd": lambda c: c.plot_cum_fmd(fmd_bin=.1), "fmd": lambda c: c.plot_fmd(fmd_bin=.1),
    "mc vs b": lambda c: c.plot_mc_vs_b(mcs=[1., 1.1], delta_m=.1),
    "cum count": lambda c: c.plot_cum_count(mcs=np.array([1.]), delta_m=.1), "mags in time": lambda c: c.plot_mags_in_time(),
    "space": lambda c: c.plot_in_space(include_map=False), "openquake": lambda c: c.to_openquake(),
    "strip": lambda c: c.strip(), "strip in place": lambda c: c.strip(inplace=True), "quakeml": lambda c: c.to_quakeml(),
}
GRID = {"strip": CAT["strip"], "strip in place": CAT["strip in place"], "time index": lambda g: g.add_time_index()}
OPS = {"Catalog": CAT, "ForecastCatalog": CAT, "GRRateGrid": GRID, "ForecastGRRateGrid": GRID}
FEW = {"strip": None, "strip in place": None, "quakeml": None, "time index": None,
       "openquake": STD[:5], "space": ["latitude", "longitude", "magnitude"], "cum count": ["time", "magnitude"], "mags in time": ["time", "magnitude"]}


def needs(kind, op):                     # used only to steer what is tried
    n = FEW.get(op, ["magnitude"])
    return WHOLE[kind] if n is None else n


def attempt(fn, c):
    import matplotlib.pyplot as plt
    plt.close("all")
    msg = []

    def f():
        try:
            return fn(c)
        except Exception as e:
            msg.append(str(e))
            raise
    np.random.seed(1)
    r, err = call(f)
    figs = len(plt.get_fignums())
    plt.close("all")
    named = [w for w in WORDS if msg and re.search(r"(?<!\w)" + w + r"(?!\w)", msg[0])]
    return r, err, named, figs


def session(item, rng):
    kinds, hist, focus = item
    C = heap.Contents()
    ev, tabs, spare, renamed = [], [], [], []
    for kd in kinds:
        d = data(kd, rng)
        cols = list(d)
        if rng.random() < .5:
            cols = [cols[int(i)] for i in rng.permutation(len(cols))]
        d = {k: d[k] for k in cols}
        t, err = call(make, kd, d)
        if err:
            ev.append({"k": "make", "kind": kd, "cols": [], "want": cols})
            return {"ev": ev}
        tabs.append(t)
        spare.append(d)
        renamed.append({})
        ev.append({"k": "make", "kind": kd, "cols": [str(x) for x in t.columns], "want": cols})
    state = lambda t: C.parts(t)

    def drop(o, c):
        t = tabs[o]
        way = int(rng.integers(5))
        if way == 0:
            del t[c]
        elif way == 1:
            t.drop(columns=[c], inplace=True)
        elif way == 2:
            t.pop(c)
        elif way == 3:
            t.drop(c, axis=1, inplace=True)
        else:
            t.drop(labels=[c], axis="columns", inplace=True)
        if rng.random() < .2:               # an attribute is no column
            setattr(t, c, 1.)

    def add(o, c):
        t = tabs[o]
        t.__dict__.pop(c, None)
        v = spare[o].get(c)
        v = list(v) if v is not None else [1.] * len(t)
        if rng.random() < .5:
            t[c] = v
        else:
            t.insert(int(rng.integers(len(t.columns) + 1)), c, v)

    for s in hist:
        what, o, x = s
        o = o - 1
        t = tabs[o]
        if what in ("drop", "add"):
            here = x in t.columns
            if here == (what == "add"):
                continue
            _, err = call(drop if what == "drop" else add, o, x)
            ev.append({"k": "edit", "o": o + 1, "add": what == "add", "col": x, "cols": [str(c) for c in t.columns]})
            continue
        if x in ("space", "openquake") and all(c in t.columns for c in needs(kinds[o], x)):
            continue                                # the business of C22 and C26
        before = [state(z) for z in tabs]
        r, err, named, figs = attempt(OPS[kinds[o]][x], t)
        after = [state(z) for z in tabs]
        ev.append({"k": "call", "o": o + 1, "op": x, "err": err, "named": named, "same": before[o] == after[o], "figures": figs,
                   "others": all(a == b for i, (a, b) in enumerate(zip(before, after)) if i != o), "cols": [str(c) for c in t.columns]})
    return {"ev": ev}


def concrete(hist, rng, kinds, p, q):
    """an abstract history with a, b, p, q replaced"""
    both = [c for c in needs(kinds[0], p) if c in needs(kinds[0], q)]
    only = [c for c in needs(kinds[0], q) if c not in needs(kinds[0], p)] or both
    a = pick(rng, both)
    b = pick(rng, [c for c in only if c != a] or only)
    x = pick(rng, EXTRA)
    return [(w, o, {"a": a, "b": b, "x": x, "p": p, "q": q}[z]) for w, o, z in hist]


def anything(rng, kinds):
    h, have = [], [list(WHOLE[k]) for k in kinds]
    for _ in range(int(rng.integers(4, 14))):
        o = int(rng.integers(len(kinds)))
        u = rng.random()
        gone = [c for c in WHOLE[kinds[o]] if c not in have[o]]
        if u < .3 and have[o]:
            c = pick(rng, have[o])
            have[o].remove(c)
            h.append(("drop", o + 1, c))
        elif u < .5 and gone:
            c = pick(rng, gone)
            have[o].append(c)
            h.append(("add", o + 1, c))
        elif u < .55:
            h.append(("add", o + 1, pick(rng, EXTRA[:2])))
        else:
            op = pick(rng, list(OPS[kinds[o]]))
            h.append(("call", o + 1, op))
    return h


def main(run):
    import matplotlib
    matplotlib.use("Agg")
    faults = ["none", "any", "first only", "accepted once", "refused once", "nothing else", "never", "other table", "stale", "shared", "shrinks", "names all", "names one", "acts first", "wrong error"]
    master = [("call", 1, "p"), ("call", 1, "q"), ("call", 2, "q"), ("drop", 1, "b"), ("call", 1, "p"), ("call", 1, "q"), ("call", 1, "q"), ("call", 2, "q"),
              ("drop", 1, "a"), ("call", 1, "q"), ("call", 1, "p"), ("add", 1, "a"), ("add", 1, "b"), ("call", 1, "q"), ("add", 1, "x"), ("call", 1, "q"), ("call", 1, "p")]
    tla = lambda h: "<<" + ",".join(f'<<"{a}",{o},"{c}">>' for a, o, c in h) + ">>"
    cases = run.model("MCColumns", cfg(constants={"Faults": "{" + ",".join(f'"{f}"' for f in faults) + "}", "MaxSteps": str(run.n(4, 5)), "Master": tla(master)},
                                       invariants=["NoFalseAlarm", "MasterShowsAll", "Emit"]))
    hs = sorted({tuple(tuple(s) for s in c["h"]) for c in cases}, key=lambda h: (len(h), h))
    rng = run.rng
    pairs = [["Catalog", "Catalog"], ["Catalog", "ForecastCatalog"], ["ForecastCatalog", "Catalog"], ["ForecastCatalog"] * 2, ["GRRateGrid"] * 2, ["ForecastGRRateGrid", "GRRateGrid"]]
    items = []
    qs = ["cum count", "mags in time", "space", "openquake", "strip", "quakeml", "strip in place"]
    for kinds in pairs:
        ops = OPS[kinds[0]]
        small = [o for o in ops if o not in qs] or list(ops)
        big = [o for o in ops if o in qs] or list(ops)
        for q in big:
            for p in ([pick(rng, small)] if not run.thorough else small):
                items.append((kinds, concrete(master, rng, kinds, p, q), None))
        for p in small:
            items.append((kinds, concrete(master, rng, kinds, p, pick(rng, big)), None))
    for _ in range(run.n(250, 3000)):
        kinds = pick(rng, pairs)
        ops = list(OPS[kinds[0]])
        items.append((kinds, concrete(pick(rng, hs), rng, kinds, pick(rng, ops), pick(rng, ops)), None))
    for _ in range(run.n(250, 3000)):
        kinds = pick(rng, pairs) + ([pick(rng, list(WHOLE))] if rng.random() < .3 else [])
        items.append((kinds, anything(rng, kinds), None))
    sess = run.pmap(session, items)
    run.judge("TraceColumns", sess)
    run.assumptions += ["methods which need further columns for an option chosen by the caller are called with defaults",
                        "names of missing columns are looked for as whole words in the message of the error",
                        "plotting in space and conversion to OpenQuake are tried on tables with a column missing (accepted calls: C22, C26)"]
