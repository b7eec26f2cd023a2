"""C34 - arguments that do not fit together are refused, fitting ones are accepted."""
import contextlib, datetime, io, os
import numpy as np
import pandas as pd
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
FAULTS = ["none", "longer", "shorter", "one or other", "first call", "same object", "cancel", "zero", "sign", "required", "keeps", "stuck"]
MASTER = [[1, 0, 0, 0], [1, 1, 0, 1], [1, -1, 2, 1], [2, 1, 2, 1], [2, -1, 1, 1], [2, 1, -1, 0], [1, 2, 1, 1], [1, 2, 2, -1], [2, 0, -1, 0], [2, 2, 0, 0]]


def tla(x):
    return "<<" + ", ".join(tla(v) if isinstance(v, list) else str(v) for v in x) + ">>"


class Args:
    """arguments of one call and what the specification looks at"""

    def __init__(self, rng, n=None):
        self.rng, self.kw = rng, {}
        self.e = {"lens": [], "num": [], "txt": [], "mat": [], "smp": [], "w": 1, "later": True}
        self.n = n or int(rng.integers(60, 90))
        self.off = rng.random() < .55           # something about the call does not fit

    def odd(self, p=.3):
        return self.off and self.rng.random() < p

    def sample(self, D=.1, key="magnitudes", half=True, lo=0):
        r = self.rng
        ks = np.concatenate([[0, 1, 0], np.minimum(r.geometric(.18, self.n - 4) - 1, 25), [12]])
        ks = 2 * (r.permutation(ks) + lo)
        if half and self.odd(.2):
            ks[int(r.integers(self.n))] += 1
        self.m = np.round(ks * D / 2 + 1, 8)
        self.kw[key] = self.m
        self.e["smp"], self.e["w"] = [int(k) for k in ks], 2
        self.e["lens"].append(["m", self.n])
        return self

    def length(self, name, make, key=None, p=.3, optional=0.):
        if self.rng.random() < optional:
            return self
        n = self.n + (pick(self.rng, [-1, 1, -1, 1, -7, 5]) if self.odd(p) else 0)
        self.kw[key or name] = make(n)
        self.e["lens"].append([name, n])
        return self

    def times(self, key="times", p=.3, optional=0., kind=None):
        r = self.rng
        k = int(r.integers(3)) if kind is None else kind
        f = [lambda n: np.arange(n) * 2., lambda n: np.datetime64("2020-01-01T00:00:00", "s") + np.arange(n) * np.timedelta64(3600, "s"), lambda n: [float(i) for i in range(n)]][k]
        return self.length("times", f, key, p, optional)

    def weights(self, p=.3, optional=.4, sign=True):
        r = self.rng
        if r.random() < optional:
            return self
        self.length("weights", lambda n: r.integers(1, 4, n).astype(float), "weights", p)
        w = self.kw["weights"]
        if sign and self.odd(.25):
            w[int(r.integers(len(w)))] = -1.
        elif sign and r.random() < .2:
            w[int(r.integers(len(w)))] = 0.
        self.e["num"].append(["weight", int(w.min())])
        return self

    def number(self, name, values, odd, key=None, optional=0., unit=1, p=.3):
        if self.rng.random() < optional:
            return self
        v = pick(self.rng, odd) if odd and self.odd(p) else pick(self.rng, values)
        self.kw[key or name] = v * unit if unit != 1 else v
        self.e["num"].append([name, int(v)])
        return self

    def text(self, name, good, bad, key=None, optional=.3):
        if self.rng.random() < optional:
            return self
        v = pick(self.rng, bad) if self.odd() else pick(self.rng, good)
        self.kw[key or name] = v
        self.e["txt"].append([name, v])
        return self

    def put(self, **kw):
        self.kw.update(kw)
        return self


BNAMES = (["b_value", "beta"], ["b", "B_value", "slope", "", "Beta", "bvalue"])


def estimator(rng, name, n=None):
    a = Args(rng, n).sample().put(mc=float(pick(rng, [1., 1.1, 1.5, 2.])), delta_m=.1)
    a.kw["mc"] = round(a.kw["mc"], 1)
    if name.endswith("BValueEstimator"):
        a.weights()
    if "Positive" in name:
        a.times(optional=.3 if "BValue" in name else 0.)
        a.number("dmc", [0, 1, 2, 3], [-1, -2], optional=.4, unit=.1)
    if name.endswith("AValueEstimator"):
        if rng.random() < .4:
            a.put(m_ref=0.)
            a.e["num"].append(["m_ref", 0])
        if rng.random() < (.4 if a.off else 1.):
            a.put(b_value=pick(rng, [1., .8, 1.3]))
            a.e["num"].append(["b_value", 1])
    return a


def table(rng, a, cols=True):
    k = int(rng.integers(1, 4))
    t = [[round(1. + .5 * i, 1), 1990 - 5 * i] for i in range(k)]
    if a.odd(.25) and k > 1:
        t[0], t[-1] = t[-1], t[0]
    e = [[int(round(r[0] * 10)), int(r[1])] for r in t]
    if a.odd(.2):
        t = [r + [1] for r in t]
        e = [r + [1] for r in e]
    a.e["mat"] = e
    return np.array(t, dtype=float)


def matrix(rng, a, n):
    kind = int(rng.integers(4))
    m = np.triu(rng.integers(0, 2, (n, n)), 1)
    m[0, 1] = 1
    if kind == 1:
        m = m.T.copy()
    elif kind == 2:
        m = m + m.T
    elif kind == 3:
        m = np.eye(n, k=1).astype(int)
    if a.odd(.5):
        k = int(pick(rng, [0, 0, 0, 1, 2, 3, 4]))
        if k == 0:                                      # neither one-sided nor mirrored
            j = int(rng.integers(3))
            if j == 0:
                m = np.triu(np.ones((n, n), int), 1)
                m[2, 0] = 1
            elif j == 1:                                # a ring in one direction: sums agree, entries do not
                m = np.roll(np.eye(n, dtype=int), 1, axis=1)
                q = rng.permutation(n)
                m = m[np.ix_(q, q)]
            else:
                m = rng.integers(0, 2, (n, n)) * (1 - np.eye(n, dtype=int))
        elif k == 1:
            i = int(rng.integers(n - 1))
            m = np.triu(m, 1) if m[0, 1] else np.triu(m.T, 1)
            m[i, i + 1] = pick(rng, [2, -1, 3])
        elif k == 2:
            m = np.delete(m, -1, axis=1)
        elif k == 3:
            m = m[:-1, :-1]
        else:
            m = np.pad(m, ((0, 1), (0, 1)))
            m[0, n] = m[n, 0] = 1 if np.all(m == m.T) else 0
    a.e["mat"] = m.tolist()
    return m.astype(pick(rng, [float, int]))


def fns():
    import matplotlib
    matplotlib.use("Agg")
    import seismostats
    from seismostats import analysis as an
    from seismostats import plots as pl
    from seismostats import utils as ut
    from seismostats.analysis import b_significant as bs
    from seismostats.analysis import estimate_mc as em
    from seismostats.analysis.bvalue.kijko_smit import estimate_b_kijko_smit
    from seismostats.analysis.bvalue.weichert import estimate_b_weichert
    from seismostats.analysis.bvalue.utils import make_more_incomplete, shi_bolt_confidence
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
    from seismostats.plots import basics
    from seismostats.utils import binning, simulate_distributions as sd
    F = {}

    def add(name, f, build, weight=1):
        F[name] = (f, build, weight)

    def some(rng, a, **kw):
        """a number per event or a single one"""
        return a.length("mc", lambda n: np.full(n, 1.), "mc") if rng.random() < .5 else a.put(mc=1.)

    def estb(rng, positive):
        a = Args(rng).sample().put(mc=1., delta_m=.1).weights().text("b_parameter", *BNAMES)
        if positive:
            a.times(optional=.3).number("dmc", [0, 1, 2], [-1, -3], optional=.4, unit=.1).put(method=pick(rng, [an.BPositiveBValueEstimator, an.BMorePositiveBValueEstimator]))
        if rng.random() < .4:
            a.put(return_std=True)
        return a
    add("estimate_b", an.estimate_b, lambda r: estb(r, False), 2)
    add("estimate_b positive", an.estimate_b, lambda r: estb(r, True), 2)

    def fmd(r, zero):
        a = Args(r).sample(half=False).number("width", [1, 1, 2, 5] + zero, [0, -1] if not zero else [-1, -2], "fmd_bin", unit=.1).weights(sign=False)
        return a if a.kw["fmd_bin"] == 0 else a.text("bin_position", ["left", "center"], ["right", "centre", "", "Left", "lef"])
    add("get_fmd", binning.get_fmd, lambda r: fmd(r, []), 2)
    add("get_cum_fmd", binning.get_cum_fmd, lambda r: fmd(r, [0]), 2)
    add("plot_fmd", pl.plot_fmd, lambda r: Args(r).sample(half=False).put(fmd_bin=.1).weights(sign=False).text("bin_position", ["left", "center"], ["right", "centre", "middle"]))
    add("plot_cum_fmd", pl.plot_cum_fmd, lambda r: Args(r).sample(half=False).put(fmd_bin=.1).weights(sign=False).text("bin_position", ["left", "center"], ["right", "centre", "middle"]))
    add("ks_test_gr", em.ks_test_gr, lambda r: Args(r).sample(half=False).put(mc=1., delta_m=.1, b_value=1., n=3).weights(sign=False))
    add("estimate_mc_ks", em.estimate_mc_ks, lambda r: Args(r).sample().put(delta_m=.1, n=3, **({} if r.random() < .5 else {"mcs_test": [1., 1.1]})).weights(), 2)

    def stab(rng):
        a = Args(rng).sample().put(delta_m=.1).weights()
        ks = [k // 2 for k in a.e["smp"] if k % 2 == 0]
        if any(k % 2 for k in a.e["smp"]) or max(a.e["smp"]) % 2:
            return a
        lo, hi = min(ks), max(ks)
        x = int(pick(rng, [hi - lo + 1, hi - lo + 3])) if a.odd() else int(pick(rng, [1, 3, 5, hi - lo]))
        a.put(stability_range=round(x * .1, 1))
        a.e["num"] += [["lo", lo], ["hi", hi], ["range", x]]
        return a
    add("estimate_mc_b_stability", em.estimate_mc_b_stability, stab, 2)
    add("bin_to_precision", ut.bin_to_precision, lambda r: Args(r).sample(half=False, key="x").number("width", [1, 2, 5], [0, -1, -5], "delta_x", unit=.1))

    def test(rng):
        a = Args(rng).put(delta_x=.1)
        n = 0 if a.off else int(rng.integers(1, 9))
        a.e["lens"].append(["m", n])
        return a.put(x=pick(rng, [np.arange(n) * .3, [float(i) for i in range(n)]]))
    add("binning_test", binning.binning_test, test)

    def series(rng, extra=None):
        a = Args(rng, int(rng.integers(100, 140))).sample(half=False).put(delta_m=.1).times()
        some(rng, a)
        a.length("x", lambda n: np.arange(n) * .5, "x_variable", optional=.4)
        if extra is not False:
            nm = int(pick(rng, [15, 20, 25]))
            a.put(n_m=nm)
            a.e["num"].append(["n_m", nm])
            a.number("min_num", [2, 5, nm - 1, nm], [nm + 1, nm + 5], optional=.4)
        return a
    add("b_significant_1D", bs.b_significant_1D, series, 2)
    add("plot_b_series_constant_nm", pl.plot_b_series_constant_nm, lambda r: series(r).text("technique", ["left", "midpoint", "right"], ["centre", "mid", "", "Right"], "plot_technique"), 2)
    add("plot_b_significant_1D", pl.plot_b_significant_1D, lambda r: series(r, False).put(n_ms=np.array([20, 30])), 2)
    add("plot_mc_vs_b positive", pl.plot_mc_vs_b, lambda r: Args(r).sample(half=False).put(mcs=np.array([1., 1.1]), delta_m=.1, b_method=pick(r, [an.BPositiveBValueEstimator, an.BMorePositiveBValueEstimator])).times(optional=.2))

    def part(rng):
        a = Args(rng, int(rng.integers(2, 6)))
        n = a.n
        a.e["lens"].append(["m", n])
        mags = [np.round(1 + .1 * np.minimum(rng.geometric(.3, 30) - 1, 15), 1) for _ in range(n)]
        a.put(list_magnitudes=mags, delta_m=.1)
        near = lambda k: n + (pick(rng, [-1, 1, 2]) if a.odd() else 0)
        k = near(0)
        a.e["lens"].append(["times", k])
        a.put(list_times=[np.arange(30) * 1. for _ in range(k)])
        if rng.random() < .6:
            k = near(0)
            a.e["lens"].append(["mc", k])
            a.put(list_mc=[1.] * k)
        else:
            a.put(list_mc=1.)
        if rng.random() < .6:
            a.put(method=pick(rng, [an.ClassicAValueEstimator, an.APositiveAValueEstimator]))
            if rng.random() < .8:
                k = near(0)
                a.e["lens"].append(["scaling", k])
                a.put(list_scaling=pick(rng, [[1., 2., .5, 1., 1., 1., 1., 1.][:k], np.ones(k)]))
        return a
    add("values_from_partitioning", bs.values_from_partitioning, part, 3)

    def trn(rng):
        a = Args(rng).put(b_estimate=1.1, b_true=1.)
        n1 = int(rng.integers(10, 40))
        n2 = n1 + int(pick(rng, [-1, -5, -9]) if a.off else pick(rng, [0, 1, 40]))
        a.e["num"] += [["n1", n1], ["n2", n2]]
        return a.put(n1=n1, n2=n2)
    add("transform_n", bs.transform_n, trn)

    def cut(rng):
        a = Args(rng)
        n = int(rng.integers(1, 12))
        off = n + int(pick(rng, [0, 1, 3])) if a.off else int(rng.integers(0, n))
        a.e["num"] += [["n", n], ["offset", off]]
        return a.put(values=np.arange(40.), n=n, offset=off)
    add("cut_constant_idx", bs.cut_constant_idx, cut)

    def moran(rng):
        a = Args(rng)
        n = int(pick(rng, [1, 0])) if a.odd(.15) else int(rng.integers(3, 7))
        a.e["lens"].append(["m", n])
        a.put(values=rng.integers(0, 3, n) * 1. + np.arange(n))
        if n > 2 and rng.random() < .8:
            a.put(w=matrix(rng, a, n))
        return a
    add("est_morans_i", bs.est_morans_i, moran, 4)

    def count(rng):
        a = Args(rng).sample(half=False).put(delta_m=.1).times(kind=int(rng.integers(2))).weights(sign=False)
        k = int(rng.integers(1, 5))
        a.put(mcs=np.round(1 + .1 * np.arange(k), 1))
        if rng.random() < .6:
            c = k + (pick(rng, [-1, 1, 2]) if a.odd(.5) else 0)
            c = max(c, 0)
            a.e["num"] += [["colors", c], ["mcs", k]]
            a.put(color=["r", "g", "b", "k", "y", "c", "m"][:c])
        return a
    add("plot_cum_count", pl.plot_cum_count, count, 3)
    add("plot_mags_in_time", pl.plot_mags_in_time, lambda r: Args(r).sample(half=False).times(kind=1))
    add("reverse_dot_size", basics.reverse_dot_size, lambda r: Args(r).put(sizes=np.array([1., 4., 9.]), min_mag=1., max_mag=3.).number("power", [1, 2, 3], [0], "interpolation_power", p=1))
    add("simulate_magnitudes_binned", ut.simulate_magnitudes_binned, lambda r: Args(r).put(n=20, b=1., mc=1., delta_m=pick(r, [.1, 0.])).text("b_parameter", *BNAMES))
    add("shi_bolt_confidence", shi_bolt_confidence, lambda r: Args(r).sample(half=False).put(**{pick(r, ["b", "b"]): 1.}).text("b_parameter", *BNAMES))
    add("dither_magnitudes", ut.dither_magnitudes if hasattr(ut, "dither_magnitudes") else sd.dither_magnitudes, lambda r: Args(r).sample().put(delta_m=.1, b_value=1.))
    for name, f in (("estimate_b_weichert", estimate_b_weichert), ("estimate_b_kijko_smit", estimate_b_kijko_smit)):
        def build(rng, name=name):
            a = Args(rng).sample(half=False)
            a.length("times", lambda n: [datetime.datetime(1980 + i % 40, 3, 4) for i in range(n)])
            a.put(completeness_table=table(rng, a))
            a.number("width", [1], [0, -1], "delta_m", unit=.1)
            a.text("b_parameter", *BNAMES)
            if name == "estimate_b_weichert":
                a.put(mag_max=5.)
            return a
        add(name, f, build, 3)

    def lil(rng):
        a = Args(rng)
        ks = np.unique(rng.integers(0, 300, 25))
        mc = int(ks.min()) + (int(pick(rng, [1, 30])) if a.off else int(pick(rng, [0, -1, -5])))
        a.e["num"] += [["mc", mc], ["lowest", int(ks.min())]]
        return a.put(magnitudes=1 + ks / 64., mc=1 + mc / 64.)
    add("empirical_lilliefors", ks_test_gr_lilliefors, lil)
    add("make_more_incomplete", make_more_incomplete, lambda r: Args(r).sample(half=False).times(kind=1))

    def key(rng):
        return Args(rng).text("key", ["warnings"], ["warning", "Warnings", "", "verbose"], optional=0)
    add("get_option", lambda key: ut.get_option(key), key)
    add("set_option", lambda key: ut.set_option(key, ut.get_option("warnings")), key)
    return F


EST = ["ClassicBValueEstimator", "UtsuBValueEstimator", "BPositiveBValueEstimator", "BMorePositiveBValueEstimator", "ClassicAValueEstimator", "APositiveAValueEstimator", "AMorePositiveAValueEstimator"]


def result(est):
    g = lambda n: call(getattr, est, n)
    out = []
    for n in ("value", "std", "n", "magnitudes", "times", "weights", "idx", "a_value", "b_value"):
        if n == "std" and "BMore" in type(est).__name__:     # a bootstrap
            continue
        v, e = g(n)
        out.append((n, e, [] if v is None else np.asarray(v).tolist()))
    return repr(out)


def later(rng, name, est):
    """does a fitting call on (a copy of) the object give what it gives on a fresh one"""
    import copy
    import seismostats.analysis as an
    a = estimator(np.random.default_rng(int(rng.integers(10 ** 9))), name)
    while a.off:
        a = estimator(np.random.default_rng(int(rng.integers(10 ** 9))), name)
    old, new = copy.deepcopy(est), getattr(an, name)()
    _, e1 = call(old.calculate, **a.kw)
    _, e2 = call(new.calculate, **a.kw)
    return e1 == e2 and result(old) == result(new)


def done(a, fn, err, keep):
    return a.e | {"fn": fn, "err": err, "unchanged": same(keep, snap(a.kw))}


def main(run):
    cases = run.model("MCRefusals", cfg(constants={"FaultKinds": "{" + ",".join('"%s"' % f for f in FAULTS) + "}", "MaxSteps": str(run.n(2, 2)), "Master": tla(MASTER)},
                                        invariants=["NoFalseAlarm", "MasterShowsAll", "MatRules", "Emit"]), "all histories of two calls on two objects and the master history, 11 faults")
    hists = [MASTER] * 4 + [c["h"] for c in cases if c["f"] == "none"][:: run.n(37, 3)]

    def replay(h, rng):
        import seismostats.analysis as an
        name = pick(rng, ["BPositiveBValueEstimator", "BMorePositiveBValueEstimator"])
        ests = {}
        ev = []
        for o, t, w, s in h:
            est = ests.setdefault(o, getattr(an, name)())
            a = Args(rng)
            a.off = False
            a.sample().put(mc=1., delta_m=.1)
            if t != 2:
                a.kw["times"] = np.arange(a.n + t) * 1.
                a.e["lens"].append(["times", a.n + t])
            if w != 2:
                a.kw["weights"] = np.ones(a.n + w)
                a.e["lens"].append(["weights", a.n + w])
                a.e["num"].append(["weight", 1])
            a.kw["dmc"] = s * .2
            a.e["num"].append(["dmc", s])
            keep = snap(a.kw)
            _, err = call(est.calculate, **a.kw)
            ev.append(done(a, name, err, keep) | {"later": later(rng, name, est)})
        return {"ev": ev}
    sessions = run.pmap(replay, hists, 1)

    def ests(k, rng):
        import seismostats.analysis as an
        ev, objs = [], {}
        for _ in range(8):
            name = EST[int(rng.integers(len(EST)))]
            a = estimator(rng, name)
            est = objs.setdefault(name, getattr(an, name)())
            keep = snap(a.kw)
            _, err = call(est.calculate, **a.kw)
            ev.append(done(a, name, err, keep) | {"later": later(rng, name, est)})
        return {"ev": ev}
    sessions += run.pmap(ests, range(run.n(150, 1500)), 2)

    def others(k, rng):
        import matplotlib.pyplot as plt
        F = fns()
        names = sorted(F)
        prob = np.array([F[n][2] * (.5 if n.startswith("plot") else 1.) for n in names])
        ev = []
        for _ in range(8):
            name = names[int(rng.choice(len(names), p=prob / prob.sum()))]
            f, build, _w = F[name]
            a = build(rng)
            keep = snap(a.kw)
            with contextlib.redirect_stdout(io.StringIO()):
                _, err = call(f, **a.kw)
            plt.close("all")
            ev.append(done(a, name, err, keep))
        return {"ev": ev}
    sessions += run.pmap(others, range(run.n(450, 4500)), 3)
    run.judge("TraceRefusals", sessions)
    run.assumptions += ["any exception counts as a refusal", "samples have at least 60 events and lengths differ by at most 7"]
