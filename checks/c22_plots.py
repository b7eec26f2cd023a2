"""C22 - what plots show."""
import contextlib, datetime, io
import numpy as np
import pandas as pd
from scipy.stats import norm
from vh import *
import sigdrv
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
U = .1
DAY0 = np.datetime64("2003-01-01")
NOMC = -777


def fix(x, s):
    x = float(x)
    return NOTINT - 1 if math.isnan(x) else NOTINT if not math.isfinite(x) or abs(x) * s > 2e9 else int(round(x * s))


def magarr(m, rng, forms="asp"):
    a = np.array([np.nan if x == NOTINT - 1 else round(x * U, 10) for x in m], dtype=float)
    k = pick(rng, list(forms))
    return a if k == "a" else list(a) if k == "l" else pd.Series(a, index=np.arange(len(a)) * 2 + 1) if k == "s" else pd.Series(a, index=np.arange(len(a))[::-1])


def timearr(t, rng):
    d = DAY0 + np.array(t, dtype=int).astype("timedelta64[D]")
    k = int(rng.integers(5))
    return [x.astype("datetime64[us]").item() for x in d] if k == 0 else pd.Series(d.astype("datetime64[ns]"), index=np.arange(len(d)) + 7) if k == 1 else pd.DatetimeIndex(d) if k == 2 else d.astype("datetime64[s]") if k == 3 else d.astype("datetime64[ns]")


def days(x):
    import matplotlib.dates as md
    return [units(v - md.date2num(DAY0), 1) for v in np.asarray(x, dtype=float)]


class Canvas:
    """an axes of the caller (with something on it already) or none"""
    def __init__(self, rng, geo=False):
        import matplotlib.pyplot as plt
        plt.close("all")
        self.plt, self.ax = plt, None
        if rng.random() < .5 and not geo:
            f, axs = plt.subplots(1, 2)
            self.ax = axs[0]
            if rng.random() < .5:
                self.ax.plot([DAY0], [1.]) if geo is None else None
        self.nl = len(self.ax.lines) if self.ax is not None else 0
        self.kw = {"ax": self.ax} if self.ax is not None else {}
        self.fig0 = set(plt.get_fignums())

    def ok(self, ax):
        new = set(self.plt.get_fignums()) - self.fig0
        return bool(ax is self.ax and not new and all(not a.lines and not a.collections for a in ax.figure.axes if a is not ax) if self.ax is not None else ax is not None and len(new) == 1)

    def close(self):
        self.plt.close("all")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return call(f, *a, **k)


def points(ax):
    out = []
    for c in ax.collections:
        off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
        sz = np.asarray(c.get_sizes(), dtype=float)
        if len(sz) != len(off):
            sz = np.resize(sz, len(off)) if len(sz) else np.full(len(off), np.nan)
        out.append((off, sz))
    return out


def line_of(ln):
    return np.asarray(ln.get_xdata(orig=False), dtype=float), np.asarray(ln.get_ydata(orig=False), dtype=float)


def band(ax):
    """smallest and largest ordinate of the filled areas at every abscissa"""
    lo, hi = {}, {}
    for c in ax.collections:
        for p in c.get_paths():
            for x, y in p.vertices:
                k = round(float(x), 6)
                lo[k], hi[k] = min(lo.get(k, y), y), max(hi.get(k, y), y)
    return lo, hi


def catalog(E, rng, **attr):
    from seismostats import Catalog
    n = len(E)
    c = Catalog({"time": (DAY0 + np.array([e["t"] for e in E], dtype=int).astype("timedelta64[D]")).astype("datetime64[ns]"),
                 "magnitude": [np.nan if e["m"] == NOTINT - 1 else round(e["m"] * U, 10) for e in E], "longitude": np.linspace(7, 9, n), "latitude": np.linspace(45, 47, n)})
    if rng.random() < .5:
        c.index = np.arange(n)[::-1] * 3
    for k, v in attr.items():
        setattr(c, k, v)
    return c


def snapcat(c):
    return (pd.DataFrame(c).copy(), dict(c.__dict__.get("_attrs", {})), [getattr(c, a, None) for a in ("name", "mc", "delta_m", "b_value", "starttime", "endtime")])


def base_event(op):
    return {"op": op, "err": "", "refuse": False, "axok": True, "unchanged": True}


def fmd_event(rng, E):
    from seismostats.plots import plot_fmd, plot_cum_fmd
    cum = rng.random() < .6
    w = int(pick(rng, [1, 1, 2, 3, 5, 10] + [0] * (2 * cum)))
    left = rng.random() < .4
    weighted = any(e["w"] != 1 for e in E)
    b10 = int(pick(rng, [0, 5, 10, 13])) if cum else 0
    mags = [e["m"] for e in E if e["m"] != NOTINT - 1]
    mc = NOMC if rng.random() < .3 or not b10 else int(rng.integers(min(mags) - 2, max(mags) + 1))
    kw = {}
    cat = rng.random() < .35
    cv = Canvas(rng)
    if weighted:
        wt = np.array([e["w"] for e in E])
        kw["weights"] = pick(rng, [wt, wt * 1., pd.Series(wt, index=np.arange(len(wt)) + 3)])
    if left or rng.random() < .2:
        kw["bin_position"] = "left" if left else "center"
    if rng.random() < .3:
        kw["label"] = pick(rng, [True, False, "x"])
    if b10 and not cat:
        kw["b_value"] = b10 / 10
        if mc != NOMC:
            kw["mc"] = round(mc * U, 10)
    wd = round(w * U, 10)
    if cat:
        attr = {}
        if cum:
            if rng.random() < .5:
                attr["delta_m"] = wd
            else:
                kw["fmd_bin"] = wd
                attr["delta_m"] = .1
            if mc != NOMC:
                (attr if rng.random() < .5 else kw)["mc"] = round(mc * U, 10)
            if b10:
                (attr if rng.random() < .5 else kw)["b_value"] = b10 / 10
        else:
            kw["fmd_bin"] = wd
        c = catalog(E, rng, **attr)
        before = snapcat(c)
        r, err = quiet(c.plot_cum_fmd if cum else c.plot_fmd, **kw, **cv.kw)
        unchanged = same(before, snapcat(c))
    else:
        m = magarr([e["m"] for e in E], rng)
        if cum:
            if w or rng.random() < .5:
                kw["fmd_bin"] = wd
            before = snap(m, kw.get("weights"))
            r, err = quiet(plot_cum_fmd, m, **kw, **cv.kw)
        else:
            before = snap(m, kw.get("weights"))
            r, err = quiet(plot_fmd, m, wd, **kw, **cv.kw)
        unchanged = same(before, snap(m, kw.get("weights")))
    e = base_event("fmd")
    e.update(E=E, cum=bool(cum), w=w, left=bool(left), b10=b10, mc=mc, err=err, unchanged=unchanged, x=[], y=[], nlines=0, lx=[], llog=[], ly0=0)
    if not err:
        e["axok"] = cv.ok(r)
        pts = points(r)
        off = np.concatenate([p for p, _ in pts]) if pts else np.empty((0, 2))
        e["x"], e["y"] = [units(v, U / 2) for v in off[:, 0]], [small_int(v) for v in off[:, 1]]
        ls = r.lines[cv.nl:]
        e["nlines"] = len(ls)
        if len(ls) == 1:
            x, y = line_of(ls[0])
            e["lx"], e["llog"] = [units(v, U / 2) for v in x], [fix(math.log10(v), 1e4) if v > 0 else NOTINT for v in y]
            e["ly0"] = fix(y[0], 1e3) if len(y) else 0
    cv.close()
    return e


def count_event(rng, E, mc=None, D=0):
    from seismostats.plots import plot_cum_count
    cv = Canvas(rng)
    norm_ = rng.random() < .5
    D = D or int(pick(rng, [0, 1, 3]))
    vals = [e["m"] for e in E if e["m"] != NOTINT - 1]
    mcs = [] if rng.random() < .25 and mc is None else [mc] if mc is not None else sorted({int(x) for x in rng.integers(min(vals) - 1, max(vals) + 2, int(rng.integers(1, 4)))})
    kw = {}
    if mcs:
        a = np.round(np.array(mcs) * U, 10)
        kw["mcs"] = pick(rng, [a, list(a), pd.Series(a, index=np.arange(len(a)) + 2)])
    if not norm_ or rng.random() < .3:
        kw["normalize"] = norm_
    if any(e["w"] != 1 for e in E):
        wt = np.array([e["w"] for e in E])
        kw["weights"] = pick(rng, [wt, wt * 1., list(wt), pd.Series(wt, index=np.arange(len(wt))[::-1])])
    if rng.random() < .3:
        kw["color"] = "C1" if rng.random() < .5 or not mcs else [f"C{i}" for i in range(len(mcs))]
    if rng.random() < .35:
        attr = {}
        if rng.random() < .5:
            attr["delta_m"] = D * U
        else:
            kw["delta_m"] = D * U
            attr["delta_m"] = pick(rng, [None, .9]) if D else None
        c = catalog(E, rng, **attr)
        before = (snapcat(c), snap(kw))
        r, err = quiet(c.plot_cum_count, **kw, **cv.kw)
        unchanged = same(before, (snapcat(c), snap(kw)))
    else:
        t, m = timearr([e["t"] for e in E], rng), magarr([e["m"] for e in E], rng, "asp")
        if D or rng.random() < .5:
            kw["delta_m"] = D * U
        before = snap(t, m, kw)
        r, err = quiet(plot_cum_count, t, m, **kw, **cv.kw)
        unchanged = same(before, snap(t, m, kw))
    e = base_event("cumcount")
    e.update(E=E, mcs=mcs, D=D, norm=bool(norm_), err=err, unchanged=unchanged, lines=[])
    if not err:
        e["axok"] = cv.ok(r)
        for ln in r.lines[cv.nl:]:
            x, y = line_of(ln)
            e["lines"].append({"x": days(x), "y": [fix(v, 1e6) if norm_ else small_int(v) for v in y], "post": ln.get_drawstyle() == "steps-post"})
    cv.close()
    return e


def mags_event(rng, E):
    from seismostats.plots import plot_mags_in_time
    cv = Canvas(rng)
    p = int(rng.integers(0, 4))
    small, large = [int(x) for x in pick(rng, [(10, 200), (5, 50), (1, 2)])]
    kw = {}
    if (small, large) != (10, 200) or rng.random() < .3:
        kw.update(dot_smallest=small, dot_largest=large)
    if p != 2 or rng.random() < .3:
        kw["dot_interpolation_power"] = p
    steps = []
    tmax = max(e["t"] for e in E)
    k = rng.random()
    if k < .6:
        n = int(rng.integers(1, 4))
        if k < .25:       # years
            ys = sorted({int(x) for x in rng.integers(2000, 2003, n)})
            ct = pick(rng, [ys, np.array(ys), tuple(ys)])
            ds = [int((np.datetime64(f"{y}-01-01") - DAY0).astype(int)) for y in ys]
        else:
            ds = sorted({int(x) for x in rng.integers(-50, tmax + 1, n)})
            d = [DAY0 + np.timedelta64(x, "D") for x in ds]
            ct = pick(rng, [[datetime.datetime(2003, 1, 1) + datetime.timedelta(x) for x in ds], [pd.Timestamp(x) for x in d], np.array(d), pd.DatetimeIndex(d), d])
        mv = [int(x) for x in rng.integers(-5, 40, len(ds))]
        a = [round(x * U, 10) for x in mv]
        kw.update(mc_change_times=ct, mcs=pick(rng, [a, np.array(a), tuple(a), pd.Series(a, index=np.arange(len(a)) + 1)]))
        steps = [[x, y] for x, y in zip(ds, mv)]
    if rng.random() < .2:
        kw["color_dots"] = pick(rng, ["red", np.arange(len(E)) * 1.])
    if rng.random() < .35:
        c = catalog(E, rng)
        before = (snapcat(c), snap(kw))
        r, err = quiet(c.plot_mags_in_time, **kw, **cv.kw)
        unchanged = same(before, (snapcat(c), snap(kw)))
    else:
        t, m = timearr([e["t"] for e in E], rng), magarr([e["m"] for e in E], rng)
        before = snap(t, m, kw)
        r, err = quiet(plot_mags_in_time, t, m, **kw, **cv.kw)
        unchanged = same(before, snap(t, m, kw))
    e = base_event("magtime")
    e.update(E=E, p=p, small=small, large=large, steps=steps, err=err, unchanged=unchanged, pts=[], lines=[])
    if not err:
        e["axok"] = cv.ok(r)
        for off, sz in points(r):
            e["pts"] += [[days([a])[0], units(b, U), rat(s)] for (a, b), s in zip(off, sz) if not math.isnan(b)]
        for ln in r.lines[cv.nl:]:
            x, y = line_of(ln)
            e["lines"].append({"x": days(x), "y": [units(v, U) for v in y], "post": ln.get_drawstyle() == "steps-post"})
    cv.close()
    return e


def dots_event(rng):
    from seismostats.plots import dot_size, reverse_dot_size
    n = int(rng.integers(1, 8))
    m = [int(x) for x in rng.integers(-8, 10, n)]
    if rng.random() < .2:
        m = [m[0]] * n
    p = int(rng.integers(0, 4))
    small, large = [int(x) for x in pick(rng, [(10, 200), (5, 50), (1, 2)])]
    a = np.round(np.array(m) * U, 10)
    before = snap(a)
    kw = {} if (small, large) == (10, 200) and rng.random() < .5 else dict(smallest=small, largest=large)
    if p != 1 or rng.random() < .5:
        kw["interpolation_power"] = p
    r, err = call(dot_size, a, **kw)
    e = base_event("dots")
    e.update(m=m, p=p, small=small, large=large, sizes=[], back=[], err=err, unchanged=same(before, snap(a)))
    if not err:
        e["sizes"] = [rat(v) for v in np.asarray(r)]
        if p:
            b, err = call(reverse_dot_size, np.asarray(r), min(a), max(a), p)
            e["back"] = [units(v, U) for v in np.asarray(b)] if not err else []
    return e


def scripted(P):
    """estimator with a shift handed through the plot's further arguments and an integer deviation"""
    base = sigdrv.scripted(P)

    class Shifted(base):
        def calculate(self, magnitudes, *a, shift=0, **k):
            self.shift = shift
            return super().calculate(magnitudes, *a, **k)

        def _estimate(self):
            return super()._estimate() + self.shift

        @property
        def std(self):
            return 1. + self.n % 3
    return Shifted


def shown(ax, cv, conf):
    """x, y, upper and lower half width in standard quantiles"""
    ls = ax.lines[cv.nl:]
    x, y = line_of(ls[0]) if len(ls) == 1 else (np.array([]), np.array([]))
    lo, hi = band(ax)
    z = norm.ppf((1 + conf) / 2)
    up, down = [], []
    for a, b in zip(x, y):
        k = round(float(a), 6)
        ok = k in hi and not math.isnan(b)
        up.append(units((hi[k] - b) / z, 1) if ok else NOTINT)
        down.append(units((b - lo[k]) / z, 1) if ok else NOTINT)
    return x, [NOTINT - 1 if math.isnan(v) else small_int(v) for v in y], up, down


def mcb_event(rng):
    from seismostats.plots import plot_mc_vs_b
    n = int(rng.integers(1, 14))
    m = [NOTINT - 1 if rng.random() < .1 else int(x) for x in rng.integers(-6, 25, n)]
    if all(x == NOTINT - 1 for x in m):
        m[0] = 3
    P = int(pick(rng, [7, 11, 101]))
    mcs = [int(x) for x in rng.choice(np.arange(-8, 26), int(rng.integers(1, 5)), replace=False)]
    if rng.random() < .6:
        mcs.sort()
    D = 1
    shift = int(pick(rng, [0, 0, 5]))
    conf = float(pick(rng, [.95, .95, .68, .5, .99]))
    kw = {"shift": shift} if shift else {}
    if conf != .95 or rng.random() < .3:
        kw["confidence_interval"] = conf
    if rng.random() < .3:
        kw.update(label="l", color="C3")
    a = np.round(np.array(mcs) * U, 10)
    a = pick(rng, [a, list(a), pd.Series(a, index=np.arange(len(a)) + 2)])
    cv = Canvas(rng)
    cls = scripted(P)
    if rng.random() < .35:
        E = [{"t": i, "m": x, "w": 1} for i, x in enumerate(m)]
        own = rng.random() < .5
        c = catalog(E, rng, delta_m=D * U if own else .7, mc=.3)
        if not own:
            kw["delta_m"] = D * U
        before = (snapcat(c), snap(a))
        r, err = quiet(c.plot_mc_vs_b, a, b_method=cls, **kw, **cv.kw)
        unchanged = same(before, (snapcat(c), snap(a)))
    else:
        mm = magarr(m, rng, "aslp")
        before = snap(mm, a)
        r, err = quiet(plot_mc_vs_b, mm, a, D * U, b_method=cls, **kw, **cv.kw)
        unchanged = same(before, snap(mm, a))
    e = base_event("mcb")
    e.update(m=m, mcs=mcs, D=D, P=P, shift=shift, err=err, unchanged=unchanged, x=[], y=[], up=[], down=[])
    if not err:
        e["axok"] = cv.ok(r)
        x, e["y"], e["up"], e["down"] = shown(r, cv, conf)
        e["x"] = [units(v, U) for v in x]
    cv.close()
    return e


def history(rng, n, nan=True):
    mcs = [int(x) for x in (rng.integers(0, 4, n) if rng.random() < .6 else np.full(n, rng.integers(0, 4)))]
    t = rng.permutation(n * 2)[:n] if rng.random() < .4 else np.sort(rng.permutation(n * 2)[:n])
    x = rng.permutation(n * 2)[:n]
    return [{"m": NOTINT - 1 if nan and rng.random() < .05 else int(a), "mc": b, "t": int(c), "x": int(d)} for a, b, c, d in zip(rng.integers(-2, 20, n), mcs, t, x)]


def hist_args(rng, ev, useX):
    m = magarr([e["m"] for e in ev], rng, "aslp")
    t = sigdrv.times_as([e["t"] for e in ev], pick(rng, ["int", "float", "dt", "py", "series"]))
    mc = np.round(np.array([e["mc"] for e in ev]) * U, 10)
    if len(set(mc)) == 1 and rng.random() < .7:
        mc = pick(rng, [float(mc[0]), mc[0]])
    else:
        mc = pick(rng, [mc, list(mc), pd.Series(mc, index=np.arange(len(mc))[::-1])])
    x = None
    if useX:
        xv = np.array([e["x"] for e in ev])
        x = pick(rng, [xv, list(xv), xv * 1., pd.Series(xv, index=np.arange(len(xv)) + 5)])
    return m, t, mc, x


def series_event(rng):
    from seismostats.plots import plot_b_series_constant_nm
    ev = history(rng, int(rng.integers(2, 26)))
    useX = rng.random() < .6
    n = int(rng.integers(1, 8))
    minnum = int(pick(rng, [1, 2, 2, 4]))
    P = int(pick(rng, [7, 11, 101]))
    place = pick(rng, ["left", "midpoint", "right", "right"])
    shift = int(pick(rng, [0, 0, 5]))
    conf = float(pick(rng, [.95, .95, .68, .5, .99]))
    m, t, mc, x = hist_args(rng, ev, useX)
    kw = {"shift": shift} if shift else {}
    if conf != .95:
        kw["confidence_level"] = conf
    if place != "right" or rng.random() < .3:
        kw["plot_technique"] = place
    if minnum != 2 or rng.random() < .3:
        kw["min_num"] = minnum
    if useX:
        kw["x_variable"] = x
    bad = rng.random() < .08
    if bad:
        k = int(rng.integers(3))
        if k == 0:
            kw["plot_technique"] = "center"
        elif k == 1:
            kw["x_variable"] = np.arange(len(ev) + 1)
        else:
            t = t[:-1]
    cv = Canvas(rng)
    before = snap(m, t, mc, x)
    r, err = quiet(plot_b_series_constant_nm, m, U, mc, t, n, method=scripted(P), **kw, **cv.kw)
    e = base_event("bseries")
    e.update(events=ev, useX=bool(useX), D=1, n=n, minnum=minnum, P=P, place=place, shift=shift, err=err, refuse=bool(bad or n < minnum), unchanged=same(before, snap(m, t, mc, x)), x=[], y=[], up=[], down=[])
    if not err:
        e["axok"] = cv.ok(r)
        x_, e["y"], e["up"], e["down"] = shown(r, cv, conf)
        e["x"] = [small_int(v) for v in x_]
    cv.close()
    return e


def sig_event(rng):
    from seismostats.plots import plot_b_significant_1D
    from seismostats.analysis.b_significant import b_significant_1D
    ev = history(rng, int(rng.integers(60, 160)))
    if rng.random() < .5:                     # values with a trend, significant for some n
        ev = [dict(e, m=int(3 + 12 * (i > len(ev) / 2) + rng.integers(0, 3))) for i, e in enumerate(ev)]
    useX = rng.random() < .5
    ns = sorted({int(x) for x in rng.integers(2, 9, int(rng.integers(1, 5)))})
    P = int(pick(rng, [7, 11, 101, 100003]))
    minnum = int(pick(rng, [1, 2]))
    pt = float(pick(rng, [.05, .05, .2, .5, .01]))
    cons = rng.random() < .6
    m, t, mc, x = hist_args(rng, ev, useX)
    kw = {} if cons and rng.random() < .5 else {"conservative": cons}
    if pt != .05:
        kw["p_threshold"] = pt
    if useX:
        kw["x_variable"] = x
    cls = sigdrv.scripted(P)
    cv = Canvas(rng)
    before = snap(m, t, mc, x, ns)
    r, err = quiet(plot_b_significant_1D, m, mc, U, t, n_ms=pick(rng, [ns, np.array(ns)]), min_num=minnum, method=cls, **kw, **cv.kw)
    e = base_event("bsig")
    e.update(events=ev, useX=bool(useX), D=1, ns=ns, err=err, unchanged=same(before, snap(m, t, mc, x, ns)), x=[], mac=[], mu=[], up=[], down=[], red=[], cmac=[], cmu=[], cstd=[], p6=[], pt6=fix(pt, 1e6))
    if not err:
        import matplotlib.colors as mc_
        e["axok"] = cv.ok(r)
        lo, hi = band(r)
        mac, mu = {}, {}
        for ln in r.lines[cv.nl:]:
            a, b = line_of(ln)
            if ln.get_linestyle() == "--":
                mu = dict(zip(a, b))
            elif ln.get_linestyle() in ("None", "", " "):
                e["red"] += [small_int(v) for v in a]
            else:
                mac = dict(zip(a, b))
        e["x"] = [small_int(v) for v in mac]
        for n in ns:
            v, er = call(b_significant_1D, m, mc, U, t, n, min_num=minnum, method=cls, conservative=cons, x_variable=x)
            p, cm, cmu, cs = (float(q) for q in v) if not er else (math.nan,) * 4
            e["p6"].append(NOTINT - 1 if math.isnan(p) else fix(p, 1e6))
            e["cmac"].append(fix(cm, 1e5))
            e["mac"].append(fix(mac.get(n, math.nan), 1e5))
            ok = math.isfinite(cmu) and math.isfinite(cs) and cs > 0 and n in hi
            e["cmu"].append(fix(cmu, 1e5))
            e["mu"].append(fix(mu.get(n, math.nan), 1e5))
            level = lambda w: fix(2 * norm.sf(w / cs), 1e4)
            e["cstd"].append(fix(pt, 1e4))
            e["up"].append(level(hi[n] - mu[n]) if ok and n in mu else fix(pt, 1e4) if not math.isfinite(cs) or cs == 0 else NOTINT)
            e["down"].append(level(mu[n] - lo[n]) if ok and n in mu else fix(pt, 1e4) if not math.isfinite(cs) or cs == 0 else NOTINT)
    cv.close()
    return e


def space_event(rng):
    from seismostats.plots import plot_in_space
    n = int(rng.integers(2, 8))
    lon, lat = rng.integers(-20, 20, n), rng.integers(40, 60, n)
    if len(set(lon)) < 2:
        lon[0] += 3
    if len(set(lat)) < 2:
        lat[0] += 3
    m = [int(x) for x in rng.integers(5, 20, n)]
    if rng.random() < .2:
        m = [m[0]] * n
    p = int(rng.integers(0, 4))
    args = (lon * .5, lat * .5, np.round(np.array(m) * U, 10))
    kw = {} if p == 2 and rng.random() < .5 else {"dot_interpolation_power": p}
    if rng.random() < .3:
        kw["color_dots"] = np.arange(n) * 1.
    small, large = 10, 200
    if rng.random() < .5:
        small, large = int(rng.integers(1, 30)), int(rng.integers(40, 300))
        kw.update(dot_smallest=small, dot_largest=large)
    cv = Canvas(rng, geo=True)
    if rng.random() < .4:
        from seismostats import Catalog
        c = Catalog({"longitude": args[0], "latitude": args[1], "magnitude": args[2]})
        before = snapcat(c)
        r, err = quiet(c.plot_in_space, **kw)
        unchanged = same(before, snapcat(c))
    else:
        before = snap(args)
        r, err = quiet(plot_in_space, *args, **kw)
        unchanged = same(before, snap(args))
    e = base_event("space")
    e.update(m=m, p=p, small=small, large=large, want=[[int(a), int(b)] for a, b in zip(lon, lat)], err=err, unchanged=unchanged, pts=[], sizes=[], labels=[])
    if not err:
        e["axok"] = cv.ok(r)
        for off, sz in points(r):
            if len(off):
                e["pts"] += [[units(a, .5), units(b, .5)] for a, b in off]
                e["sizes"] += [rat(v) for v in sz]
        lg = r.get_legend()
        if lg is not None:
            e["labels"] = [fix(float(re.sub(r"[^0-9.\-−]", "", x.get_text()).replace("−", "-")), 10) for x in lg.get_texts()]
    cv.close()
    return e


def main(run):
    base = {"MaxN": 2, "Ts": "{1, 2, 3}", "Vs": "{0, 1, 2, 4, NaNV}", "Weights": "{0, 1, 3}", "Mcs": "{0, 1, 2}", "D": "1"}
    inv = ["Rising", "StepsRight", "AnyOrder", "Totals", "Anchor", "Sizes", "Windows"]
    cases = run.model("MCPlots", cfg(constants=base, invariants=inv + ["Emit"]), "up to 2 events drawn in time")
    b3 = base | {"MaxN": 3, "Ts": "{1, 2}", "Vs": "{0, 1, NaNV}", "Weights": "{1, 2}", "Mcs": "{1}"}
    if run.thorough:
        b3 |= {"Ts": "{1, 2, 3}", "Vs": "{0, 1, 3, NaNV}", "Weights": "{0, 1, 3}"}
    run.model("MCPlots", cfg(constants=b3, invariants=inv), "up to 3 events drawn in time")

    def small(c, rng):
        E = c["e"]
        ev = []
        if any(e["m"] != NOTINT - 1 for e in E):
            ev.append(count_event(rng, E, c["mc"], 1))
            k = rng.random()
            if k < .3:
                ev.append(mags_event(rng, E))
            elif k < .6:
                ev.append(fmd_event(rng, E))
        return {"ev": ev}
    sessions = run.pmap(small, cases[:: max(1, len(cases) // run.n(500, 10 ** 9))], 1)

    def rand(k, rng):
        kind = k % 10
        if kind == 9:
            return {"ev": [dots_event(rng) for _ in range(3)]}
        if kind == 8:
            return {"ev": [mcb_event(rng)]}
        if kind in (6, 7):
            return {"ev": [series_event(rng)]}
        if kind == 5:
            return {"ev": [sig_event(rng)]}
        n = int(rng.integers(1, 20))
        t = rng.integers(0, 400, n)
        if rng.random() < .6:
            t = np.sort(t)
        wts = rng.integers(0, 4, n) if rng.random() < .4 else np.ones(n)
        E = [{"t": int(a), "m": NOTINT - 1 if rng.random() < .08 else int(b), "w": int(w)} for a, b, w in zip(t, rng.integers(0, 20, n) if rng.random() < .8 else np.full(n, 7), wts)]
        if all(e["m"] == NOTINT - 1 for e in E):
            E[0]["m"] = 5
        return {"ev": [fmd_event(rng, E) if kind < 2 else count_event(rng, E) if kind < 4 else mags_event(rng, E)]}
    sessions += run.pmap(rand, range(run.n(1400, 15000)), 2)
    sessions += run.pmap(lambda k, rng: {"ev": [space_event(rng)]}, range(run.n(24, 300)), 3)
    sessions = [s for s in sessions if s["ev"]]
    run.judge("TracePlots", sessions, label="points, lines and bands of recorded plots")
    run.assumptions += ["no completeness exactly on the border of two magnitude bins", "completeness changes not after the last event",
                        "maps are drawn without background (no network)"]
