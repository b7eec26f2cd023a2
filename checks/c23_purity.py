"""C23 - calls own their results and leave the caller's data alone."""
import copy, datetime, io, contextlib
import numpy as np
import pandas as pd
from vh import *
import heap

pick = lambda rng, l: l[int(rng.integers(len(l)))]
D = .1


def form(a, k):
    return a.copy() if k == 0 else pd.Series(a.copy()) if k == 1 else pd.Series(a.copy(), index=np.arange(len(a))[::-1] + 3)


def pool(rng, n):
    """the objects of a caller"""
    from seismostats import Catalog, GRRateGrid, ForecastGRRateGrid, ForecastCatalog
    m = np.round(1. + rng.geometric(.25, n) * D - D, 10)
    m[:3] = 1.
    if rng.random() < .4:
        m[int(rng.integers(3, n))] = np.nan
    t = (np.datetime64("2015-03-01T00:00:00") + np.cumsum(rng.integers(1, 40, n)).astype("timedelta64[D]")).astype("datetime64[ns]")
    if rng.random() < .4:
        t = rng.permutation(t)
    w = np.round(rng.integers(1, 5, n) * .5, 2)
    kt = int(rng.integers(4))
    lat, lon = np.round(46 + rng.integers(0, 30, n) * .1, 2), np.round(7 + rng.integers(0, 30, n) * .1, 2)
    d = {"longitude": lon, "latitude": lat, "depth": rng.integers(0, 20, n) * 1., "time": pd.to_datetime(t), "magnitude": np.where(np.isnan(m), 1.3, m), "magnitude_type": ["ML"] * n,
         "event_type": ["earthquake"] * n, "eventID": [f"smi:x/{i}" for i in range(n)], "originID": [f"smi:o/{i}" for i in range(n)], "magnitudeID": [f"smi:m/{i}" for i in range(n)],
         "depth_uncertainty": rng.integers(1, 4, n) * .5, "magnitude_uncertainty": np.full(n, .1), "note": [["a", "b"][i % 2] for i in range(n)], "weights": w}
    cat = Catalog(copy.deepcopy(d), name="mine", delta_m=D, mc=1.2, b_value=1., starttime=pd.Timestamp("2015-01-01"), endtime=pd.Timestamp("2020-01-01"))
    if rng.random() < .4:
        cat.index = np.arange(n)[::-1] * 2
    fc = ForecastCatalog(copy.deepcopy({**d, "catalog_id": [i % 2 for i in range(n)]}), n_catalogs=3, name="f", delta_m=D, mc=1.2)

    def g(cls, k, off, gid=None, **kw):
        x = {"longitude_min": np.arange(k) * 1., "longitude_max": np.arange(k) + 1., "latitude_min": np.zeros(k), "latitude_max": np.ones(k), "depth_min": np.zeros(k), "depth_max": np.full(k, 10.),
             "a": rng.integers(0, 9, k) * .5 + off, "b": rng.integers(1, 9, k) * .25, "mc": np.full(k, 1.5), "number_events": rng.integers(0, 9, k) * 1., "remark": ["r"] * k}
        if gid is not None:
            x["grid_id"] = gid
        return cls(x, name="g", starttime=pd.Timestamp("2021-01-01") + pd.Timedelta(days=int(off)), endtime=pd.Timestamp("2021-01-02") + pd.Timedelta(days=int(off)), **kw)
    ncat = Catalog({k: list(v) for k, v in d.items() if k not in ("originID",)}, name="n", delta_m=D, mc=1.2)
    ncat["eventID"] = [None if i % 3 else x for i, x in enumerate(ncat["eventID"])]
    ncat["latitude"] = [np.nan if i % 5 == 1 else x for i, x in enumerate(ncat["latitude"])]
    ncat["magnitude_Mw"] = [2. if i % 2 else np.nan for i in range(n)]
    ng = int(rng.integers(2, 5))
    fg = g(ForecastGRRateGrid, 4, 0, gid=[0, 1, 0, 1], n_grids=2)
    fg["longitude_min"] = [0., 0., 1., 1.]
    fg["longitude_max"] = [1., 1., 2., 2.]
    nb = 12
    wm = np.triu(rng.integers(0, 2, (nb, nb)), 1) * 1.
    wm[0, 1] = wm[1, 2] = 1.
    wm = wm if rng.random() < .5 else wm + wm.T
    parts = np.array_split(np.where(np.isnan(m), 1.3, m), 3)
    years = [datetime.datetime(1950 + int(y), 2, 3) for y in rng.integers(0, 60, n)]
    return {"m": form(m, int(rng.integers(3))), "ml": list(m), "t": t.copy() if kt == 0 else pd.Series(t.copy()) if kt == 1 else [x.astype("datetime64[us]").item() for x in t] if kt == 2 else np.array([x.astype("datetime64[us]").item() for x in t], dtype=object),
            "w": w.copy() if rng.random() < .6 else pd.Series(w.copy()), "mcs": pick(rng, [[1.0, 1.2, 1.4], np.array([1.1, 1.0, 1.3]), [1.3, 1.1]]), "cat": cat, "ncat": ncat, "fcat": fc, "grid": g(GRRateGrid, ng, 0), "gridlist": [g(GRRateGrid, ng, 0), g(GRRateGrid, ng, 1)],
            "fgrid": fg, "v": np.round(rng.integers(5, 20, nb) * .1, 2), "wm": wm, "vert": [(46., 7.), (48., 7.), (48.05, 9.), (46., 9.2)], "dict": {"magnitude": [1., 2.], "time": [datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 2)], "depth": [3., 4.], "latitude": [1., 2.], "longitude": [1., 2.], "depth_uncertainty": [.1, .2], "eventID": ["a", "b"]},
            "stats": {"min": "min", "max": "max"}, "lm": [p.copy() for p in parts], "lt": [p.copy() for p in np.array_split(t, 3)], "lmc": pick(rng, [np.array([1., 1.1, 1.2]), [1., 1.1, 1.2], pd.Series([1., 1.1, 1.2])]), "yt": years, "mu": np.round(rng.integers(40, 75, n) * .1, 10), "table": pick(rng, [np.array, list])([[4.0, 1980], [5.0, 1950]]), "x": rng.integers(1, 9, 4) * 1. if rng.random() < .5 else [7.1, 7.9, 8.4], "y": rng.integers(40, 50, 4) * 1., "z": [10., 20., 30., 40.],
            "xl": np.arange(n)[::-1] * 1., "nms": pick(rng, [[5, 3], np.array([6, 4])]), "kd": [np.array([.1, .2, .4]), np.array([.1, .3, .5]), np.array([.05, .2, .6])], "mids": list(range(3)), "dates": [pd.Timestamp("2015-04-01"), pd.Timestamp("2016-04-01")], "mc2": [1.1, 1.3], "frame": pd.DataFrame(copy.deepcopy(d)), "ns": pick(rng, [[4., 6.], np.array([5., 7.])])}


def lines(ax):
    r = [ln.get_xydata().copy() for ln in ax.lines] + [np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).copy() for c in ax.collections]
    return r


def est(cls, *a, **k):
    e = cls()
    v = e.calculate(*a, **k)
    return est_attrs(e) + ([e.std] if hasattr(e, "b_value") and "More" not in cls.__name__ and "AValue" not in cls.__name__ else [])


def ops():
    import seismostats as s
    import seismostats.analysis as an
    import seismostats.utils as ut
    import seismostats.plots as pl
    from seismostats import Catalog, GRRateGrid, ForecastGRRateGrid
    from seismostats.analysis import b_significant as bs, estimate_mc as em
    from seismostats.analysis.bvalue.utils import bootstrap_std
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
    from seismostats.utils.simulate_distributions import dither_magnitudes
    from seismostats.analysis.declustering.utils import haversine
    T = []

    def op(name, args, f, kind="pure", random=False, slow=1):
        T.append(dict(name=name, args=args.split(), f=f, kind=kind, random=random, slow=slow))
    # binning and distributions
    for a in ("m", "ml", "w"):
        op("bin " + a, a, lambda x: ut.bin_to_precision(x, .2))
        op("test " + a, a, lambda x: ut.binning_test(x, D, check_larger_binning=False))
        op("fmd " + a, a, lambda x: ut.get_fmd(x, .2))
    op("bin same", "m", lambda x: ut.bin_to_precision(x, D))
    op("round", "v", lambda x: ut.normal_round(x, 0))
    op("bin v", "v", lambda x: ut.bin_to_precision(x, D))
    op("cumfmd", "m w", lambda x, w: ut.get_cum_fmd(x, .2, weights=w, bin_position="left"))
    op("fmdw", "m w", lambda x, w: ut.get_fmd(x, D, weights=w))
    # estimators
    B = [an.ClassicBValueEstimator, an.UtsuBValueEstimator]
    for c in B:
        op(c.__name__, "m w", lambda m, w, c=c: est(c, m, mc=1.2, delta_m=D, weights=w))
        op(c.__name__ + " all", "m", lambda m, c=c: est(c, m, mc=1., delta_m=D))
    for c in (an.BPositiveBValueEstimator, an.BMorePositiveBValueEstimator):   # the latter's std is a bootstrap
        op(c.__name__, "m t w", lambda m, t, w, c=c: est(c, m, mc=1., delta_m=D, times=t, weights=w))
        op(c.__name__ + " untimed", "m", lambda m, c=c: est(c, m, mc=1.1, delta_m=D))
    op("a", "m", lambda m: est(an.ClassicAValueEstimator, m, mc=1., delta_m=D, m_ref=0., b_value=1., scaling_factor=3.))
    for c in (an.APositiveAValueEstimator, an.AMorePositiveAValueEstimator):
        op(c.__name__, "m t", lambda m, t, c=c: est(c, m, mc=1., delta_m=D, times=t, **({"b_value": 1.} if c is an.AMorePositiveAValueEstimator else {})))
    op("estimate_b", "m w", lambda m, w: an.estimate_b(m, 1., D, weights=w, return_std=True, return_n=True))
    op("estimate_b t", "m t", lambda m, t: an.estimate_b(m, 1., D, times=t, method=an.BPositiveBValueEstimator))
    op("estimate_a", "m t", lambda m, t: an.estimate_a(m, 1., D, times=t, method=an.APositiveAValueEstimator))
    op("shi_bolt", "m w", lambda m, w: an.shi_bolt_confidence(m, b=1., weights=w))
    op("bootstrap", "v", lambda v: bootstrap_std(v, np.mean, n=10), random=True)
    op("next_larger", "m", lambda m: an.find_next_larger(np.asarray(m), D, D))
    op("incomplete", "m t", lambda m, t: an.make_more_incomplete(np.asarray(m), np.asarray(t, dtype="datetime64[ns]"), np.timedelta64(60, "D"), return_idx=True))
    op("weichert", "mu yt table", lambda m, t, c: an.estimate_b_weichert(m, t, c, 8.0, last_year=2012), slow=2)
    op("kijko", "mu yt table", lambda m, t, c: an.estimate_b_kijko_smit(m, t, c, last_year=2012))
    # completeness
    op("maxc", "m", lambda m: an.estimate_mc_maxc(m, D))
    op("stab", "m mcs", lambda m, c: an.estimate_mc_b_stability(m, D, mcs_test=c, stability_range=.2), slow=2)
    op("stab free", "m", lambda m: an.estimate_mc_b_stability(m, D, stability_range=.2, stop_when_passed=False), slow=3)
    op("stab cat kw", "m mcs w", lambda m, c, w: an.estimate_mc_b_stability(m, D, mcs_test=c, stability_range=.2, weights=w), slow=2)
    op("ks", "m mcs", lambda m, c: an.estimate_mc_ks(m, D, mcs_test=c, n=20), random=True, slow=2)
    op("ks list", "m mids kd", lambda m, c, k: an.estimate_mc_ks(m, D, mcs_test=[1. + i * D for i in range(3)], ks_ds_list=k, n=3, stop_when_passed=False), slow=2)
    op("kstest", "m w", lambda m, w: em.ks_test_gr(m, 1.1, D, 1., n=20, weights=w), random=True)
    op("kstest given", "m x", lambda m, x: em.ks_test_gr(m, 1.1, D, 1., ks_ds=list(x)))
    op("kstest ds", "m kd", lambda m, x: em.ks_test_gr(m, 1.1, D, 1., ks_ds=x[0]))
    op("cdf", "m", lambda m: em.cdf_discrete_exp(m, 1., D, 2.))
    op("lilliefors", "m", lambda m: ks_test_gr_lilliefors(np.asarray(m), 1.), random=True)
    # significance
    op("moran", "v wm", lambda v, w: bs.est_morans_i(v, w))
    op("moran line", "v", lambda v: bs.est_morans_i(v, mean_v=1.))
    op("transform", "v", lambda v: bs.transform_n(v, 1., np.full(len(v), 10.), np.full(len(v), 20.)))
    op("partition", "lm lt lmc", lambda a, b, c: bs.values_from_partitioning(a, b, c, D))
    op("partition a", "lm lt lmc", lambda a, b, c: bs.values_from_partitioning(a, b, c, D, method=an.APositiveAValueEstimator, list_scaling=[1., 2., 3.]))
    op("partition b+", "lm lt lmc", lambda a, b, c: bs.values_from_partitioning(a, b, c, D, method=an.BPositiveBValueEstimator))
    op("cut", "v", lambda v: bs.cut_constant_idx(v, 3, 1))
    op("bsig", "m t", lambda m, t: an.b_significant_1D(m, 1., D, t, 3), slow=2)
    op("bsig x", "m t xl", lambda m, t, x: an.b_significant_1D(m, 1., D, t, 3, x_variable=x, conservative=False), slow=2)
    # simulation, conversions
    op("dither", "m", lambda m: dither_magnitudes(np.asarray(m), D, 1.), random=True)
    op("simulate", "mc2", lambda m: ut.simulate_magnitudes_binned(5, 1., 1., D), random=True)
    op("haversine", "x y", lambda x, y: haversine(np.asarray(x)[:3], np.asarray(y)[:3], 7., 46.))
    op("to local", "x y z", lambda x, y, z: ut.CoordinateTransformer(2056, 2642690., 1205590., 100.).to_local_coords(x, y[:len(x)], z[:len(x)]))
    op("from local", "x y", lambda x, y: ut.CoordinateTransformer(2056, 2642690., 1205590., 100.).from_local_coords(x, y[:len(x)]))
    op("polygon", "cat vert", lambda c, v: ut.cat_intersect_polygon(c, v), slow=2)
    op("polygon df", "frame vert", lambda c, v: ut.cat_intersect_polygon(c, v), slow=2)
    # declustering
    W = {"GK": an.GardnerKnopoffWindow, "G": an.GruenthalWindow, "U": an.UhrhammerWindow}
    for k, c in W.items():
        op("decluster " + k, "cat", lambda x, c=c: an.GardnerKnopoffType1(c())(x), slow=2)
        op("window " + k, "mu", lambda m, c=c: c()(m))
    op("decluster df", "frame", lambda x: an.GardnerKnopoffType1(an.GruenthalWindow(), fs_time_prop=.5)(x), slow=2)
    # catalogues
    op("strip", "cat", lambda c: c.strip())
    op("strip inplace", "cat", lambda c: c.strip(inplace=True), kind="inplace")
    op("drop_unc", "cat", lambda c: c.drop_uncertainties())
    op("drop_ids", "cat", lambda c: c.drop_ids())
    op("bin cat", "cat", lambda c: c.bin_magnitudes(.2))
    op("bin cat own", "cat", lambda c: c.bin_magnitudes())
    op("bin inplace", "cat", lambda c: c.bin_magnitudes(.2, inplace=True), kind="bin")
    op("cat mc maxc", "cat", lambda c: c.estimate_mc_maxc(D), kind="storemc")
    op("cat mc stab", "cat mcs", lambda c, k: c.estimate_mc_b_stability(mcs_test=k, stability_range=.2), kind="storemc", slow=2)
    op("cat mc ks", "cat mcs", lambda c, k: c.estimate_mc_ks(mcs_test=k, n=15), kind="storemc", random=True, slow=2)
    op("cat b", "cat w", lambda c, w: est_attrs(c.estimate_b(mc=1.1, weights=w)), kind="storeb")
    op("cat b own", "cat", lambda c: est_attrs(c.estimate_b(delta_m=D)), kind="storeb")
    op("cat b+", "cat", lambda c: est_attrs(c.estimate_b(method=an.BPositiveBValueEstimator)), kind="storeb")
    op("cat a", "cat", lambda c: est_attrs(c.estimate_a(mc=1.1)), kind="storea")
    op("cat a+", "cat", lambda c: est_attrs(c.estimate_a(method=an.APositiveAValueEstimator)), kind="storea")
    op("quakeml", "cat", lambda c: c.to_quakeml(), random=invented, slow=3)
    op("quakeml n", "ncat", lambda c: c.to_quakeml(), random=True, slow=3)
    op("strip n", "ncat", lambda c: c.drop_ids())
    op("cat n b", "ncat", lambda c: est_attrs(c.estimate_b(mc=1.1)), kind="storeb")
    op("quakeml f", "fcat", lambda c: c.to_quakeml(), random=invented, slow=3)
    op("roundtrip", "cat", lambda c: Catalog.from_quakeml(c.to_quakeml(), include_uncertainties=True, include_ids=True), random=invented, slow=4)
    op("strip f", "fcat", lambda c: c.strip())
    op("bin f", "fcat", lambda c: c.bin_magnitudes(.2))
    op("from_dict", "dict", lambda d: Catalog.from_dict(d, include_uncertainties=False, include_ids=False))
    op("from_dict all", "dict", lambda d: Catalog.from_dict(d, include_uncertainties=True, include_ids=True))
    # rate grids
    op("concat", "gridlist", lambda g: GRRateGrid.concat(g))
    op("index", "grid", lambda g: g.add_time_index())
    op("index start", "grid", lambda g: g.add_time_index(endtime=False))
    op("strip g", "grid", lambda g: g.strip())
    op("strip g inplace", "grid", lambda g: g.strip(inplace=True), kind="inplace")
    op("stats", "fgrid stats", lambda g, x: g.calculate_statistics("mean", extra_stats=x))
    op("stats plain", "fgrid", lambda g: g.calculate_statistics("median"))
    op("strip fg", "fgrid", lambda g: g.strip())
    # plots
    op("p fmd", "m w", lambda m, w: lines(pl.plot_fmd(m, D, weights=w)), slow=4)
    op("p cumfmd", "m w", lambda m, w: lines(pl.plot_cum_fmd(m, mc=1.2, fmd_bin=D, weights=w, b_value=1.)), slow=4)
    op("p cum", "t m mcs w", lambda t, m, c, w: lines(pl.plot_cum_count(t, m, mcs=c, delta_m=D, weights=w)), slow=4)
    op("p time", "t m dates mc2", lambda t, m, d, c: lines(pl.plot_mags_in_time(t, m, mc_change_times=d, mcs=c)), slow=4)
    op("p mcb", "m mcs", lambda m, c: lines(pl.plot_mc_vs_b(m, c, D)), slow=5)
    op("p series", "m t", lambda m, t: lines(pl.plot_b_series_constant_nm(m, D, 1., t, 5)), slow=6)
    op("p series x", "m t xl", lambda m, t, x: lines(pl.plot_b_series_constant_nm(m, D, np.full(len(m), 1.), t, 5, x_variable=x)), slow=6)
    op("p sig", "m t nms", lambda m, t, n: lines(pl.plot_b_significant_1D(m, 1., D, t, n_ms=n)), slow=8)
    op("p space", "x y v", lambda x, y, v: lines(pl.plot_in_space(np.asarray(x), np.asarray(y)[:len(x)], np.asarray(v)[:len(x)])), slow=8)
    op("dots", "v", lambda v: pl.dot_size(v))
    op("dots back", "v", lambda v: pl.reverse_dot_size(v * 10, .5, 2., 2))
    op("gr line", "v", lambda v: pl.gutenberg_richter(v, 1., 1., 10))
    op("cat p cum", "cat mcs w", lambda c, k, w: lines(c.plot_cum_count(mcs=k, weights=w)), slow=4)
    op("cat p time", "cat dates mc2", lambda c, d, k: lines(c.plot_mags_in_time(mc_change_times=d, mcs=k)), slow=4)
    op("cat p fmd", "cat w", lambda c, w: lines(c.plot_fmd(fmd_bin=D, weights=w)), slow=4)
    op("cat p cumfmd", "cat w", lambda c, w: lines(c.plot_cum_fmd(fmd_bin=D, weights=w)), slow=4)
    op("cat p mcb", "cat mcs", lambda c, k: lines(c.plot_mc_vs_b(k)), slow=5)
    for i, o in enumerate(T):
        o["id"] = i + 1
    return T


def invented(args):
    """identifiers have to be invented"""
    return not {"eventID", "originID", "magnitudeID"} <= set(args[0].columns)


def est_attrs(e):
    return [e.value, e.n, e.magnitudes, e.idx, getattr(e, "times", None), getattr(e, "weights", None)]


def duplicate(x):
    c = copy.deepcopy(x)
    if isinstance(x, pd.DataFrame):
        for a in getattr(x, "_metadata", []):
            try:
                setattr(c, a, copy.deepcopy(getattr(x, a)) if a != "logger" else x.logger)
            except Exception:
                pass
    return c


def session(item, rng):
    import matplotlib.pyplot as plt
    a, b, hist, n = item
    A, Bo = OPS[a], OPS[b]
    P1, P2 = pool(rng, n), pool(rng, n)
    C = heap.Contents()
    names = list(dict.fromkeys(A["args"] + Bo["args"]))
    objs = [P1[x] for x in names] + [P2[x] for x in names]
    at = {x: i + 1 for i, x in enumerate(names)}
    a1, a2, b1 = [at[x] for x in A["args"]], [at[x] + len(names) for x in A["args"]], [at[x] for x in Bo["args"]]
    H = lambda: [C.parts(o) for o in objs]
    ev = [{"k": "have", "heap": H()}]
    last, ok = None, 0

    def run(o, ids):
        nonlocal last, ok
        args = [objs[i - 1] for i in ids]
        r, err = call(o["f"], *args)
        plt.close("all")
        ok += not err
        objs.append([err] if err else r)
        last = len(objs)
        ev.append({"k": "call", "op": o["id"], "name": o["name"], "kind": o["kind"], "random": bool(o["random"](args) if callable(o["random"]) else o["random"]), "args": ids, "res": C.result(objs[-1]), "heap": H(), "err": err})
    for s in hist:
        if s == "A":
            run(A, a1)
        elif s == "A2":
            run(A, a2)
        elif s == "B":
            keep = last
            run(Bo, b1)
            last = keep
        elif s == "copyA":
            k = len(objs)
            objs += [duplicate(objs[i - 1]) for i in a1]
            ev.append({"k": "have", "heap": H()})
            run(A, list(range(k + 1, k + 1 + len(a1))))
        else:
            i = (last or 1) if s == "pokeR" else pick(rng, a1)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                heap.poke(objs[i - 1])
            ev.append({"k": "poke", "obj": i, "what": s, "heap": H()})
    return {"ev": ev, "ok": ok}


MASTER = ["A", "pokeR", "A", "A2", "B", "A", "A2", "pokeX", "A", "copyA"]


def main(run):
    global OPS
    import matplotlib
    matplotlib.use("Agg")
    faults = ["mutate", "normalise", "attribute", "alias", "buffer", "cache", "stale", "global", "reach"]
    tla = lambda s: '<<' + ",".join(f'"{x}"' for x in s) + '>>'
    cases = run.model("MCPurity", cfg(constants={"Faults": '{"none",' + ",".join(f'"{f}"' for f in faults) + "}", "MaxSteps": str(run.n(5, 6)), "BKinds": '{"pure","storemc","inplace"}', "V": "7", "Master": tla(MASTER)},
                                      invariants=["NoFalseAlarm", "Separate", "MasterShowsAll", "Emit"]))
    short = []
    for f in faults:
        hs = sorted({tuple(c["h"]) for c in cases if c["f"] == f}, key=lambda h: (len(h), h))
        short.append([list(h) for h in hs if len(h) == len(hs[0])])
    long = sorted({tuple(c["h"]) for c in cases if len(c["h"]) >= 5})
    OPS = ops()
    rng = run.rng
    items = []
    for i, o in enumerate(OPS):
        rel = [j for j, p in enumerate(OPS) if set(p["args"]) & set(o["args"]) and p["slow"] < 6]
        kin = [j for j in rel if OPS[j]["kind"] != "pure"]
        other = lambda: pick(rng, kin) if kin and rng.random() < .3 else pick(rng, rel) if rel else int(rng.integers(len(OPS)))
        big = o["slow"] > 3
        for _ in range(run.n(1 if big else 3, 12 if big else 30)):
            items.append((i, other(), MASTER, int(rng.integers(25, 40))))
        for hs in short if not big or run.thorough else []:
            for _ in range(run.n(1, 5)):
                items.append((i, other(), pick(rng, hs), int(rng.integers(25, 40))))
        for _ in range(run.n(0 if big else 3, 40)):
            items.append((i, other(), list(pick(rng, long)), int(rng.integers(25, 40))))
    sess = run.pmap(session, items)
    never = [OPS[i]["name"] for i in range(len(OPS)) if not any(s["ok"] for s, it in zip(sess, items) if it[0] == i)]
    if never:
        run.assumptions.append("operations that only answered with errors in this run: " + ", ".join(never))
    if os.environ.get("VERIF_DEBUG"):
        print("never ok:", never, {o["name"]: sum(e.get("err", "") != "" for s in sess for e in s["ev"] if e.get("op") == o["id"]) / max(1, sum(e.get("op") == o["id"] for s in sess for e in s["ev"])) for o in OPS if 1})
    run.judge("TracePurity", sess)
    run.assumptions += ["objects are compared by content (values, types, index, attributes); results additionally up to 8 digits when repeated calls are compared",
                        "calls that draw random numbers are not compared with their repetition",
                        f"{len(OPS)} operations of the public interface are in the table"]
