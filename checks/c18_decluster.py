"""C18 - window declustering."""
import numpy as np
import pandas as pd
from vh import *

UNIT = 0.01                                # degrees per unit of position
KM = UNIT * np.pi / 180 * 6371.227         # km per unit
DS = 100_000                               # microseconds per unit of time (0.1 s)
DAY = 864000
COLS = ["time", "magnitude", "longitude", "latitude"]


def window_class(table):
    from seismostats.analysis.declustering.distance_time_windows import BaseDistanceTimeWindow

    class W(BaseDistanceTimeWindow):       # sizes given per magnitude
        def _calc(self, magnitude):
            m = np.asarray(magnitude, dtype=float)
            return (np.array([table[round(x * 10)][0] for x in m], dtype=float), np.array([table[round(x * 10)][1] for x in m], dtype=float))
    return W


def great_circle(lon, lat):
    lo, la = np.radians(np.asarray(lon)), np.radians(np.asarray(lat))
    v = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], 1)
    return 6371.227 * np.arctan2(np.linalg.norm(np.cross(v[:, None], v[None]), axis=2), v @ v.T)


def run_one(rng, mags, t, lon, lat, window, fs, win, geo, xs, dist, cls=None, labels=None, times=None, drop=None, extra=False, start="2020-01-01"):
    from seismostats import Catalog
    from seismostats.analysis.declustering import GardnerKnopoffType1
    n = len(mags)
    tt = pd.Timestamp(start) + pd.to_timedelta(np.array(t, dtype="int64") * DS, unit="us") if times is None else times
    d = pd.DataFrame({"time": tt, "magnitude": np.array(mags) / 10., "longitude": np.array(lon, dtype=float), "latitude": np.array(lat, dtype=float)})
    if extra:
        d["depth"] = 3.
        d["note"] = "x"
    if labels is not None:
        d.index = labels
    if drop:
        d = d.drop(columns=drop)
    cat = (cls or pd.DataFrame)(d)
    keep = cat.copy(deep=True)
    if fs is None:
        fs = (1, 1)
        dec = call(GardnerKnopoffType1, window)
    else:
        dec = call(GardnerKnopoffType1, window, fs_time_prop=fs[0] / fs[1])
    r, err = call(dec[0], cat) if not dec[1] else dec
    e = {"op": "decluster", "events": [{"mag": int(m), "t": int(a), "x": int(x)} for m, a, x in zip(mags, t, xs)], "win": win, "fs": list(fs), "geo": geo, "dist": dist, "missing": bool(drop),
         "err": err, "flags": [], "bool": False, "unchanged": bool(cat.equals(keep) and list(cat.columns) == list(keep.columns) and list(cat.index) == list(keep.index))}
    if not err:
        a = np.asarray(r)
        e["bool"] = bool(a.dtype == bool and a.ndim == 1)
        e["flags"] = [int(bool(x)) for x in a.ravel()]
    return e


def labels_for(rng, n):
    k = int(rng.integers(6))
    return [None, rng.permutation(n), rng.permutation(10 * n + 10)[:n] - 3, [f"e{i}" for i in rng.permutation(n)], rng.integers(0, max(1, n // 2 + 1), n), list(range(n))[::-1]][k]


def main(run):
    base = {"N": 3, "Mags": "{1, 2, 3}", "Times": "{0, 1, 3}", "Places": "{0, 1, 4}", "Props": "{<<0, 1>>, <<1, 2>>, <<1, 1>>}", "WholeTurn": 6}
    inv = ["HeadsAreMainshocks", "EveryEventInOneGroup", "GroupsAreWindows", "RowOrderFree"]
    cases = run.model("MCDecluster", cfg(constants=base, invariants=inv + ["Emit"], properties=["Never"]), "all catalogues of up to 3 events")
    if run.thorough:
        run.model("MCDecluster", cfg(constants=base | {"N": 4, "Mags": "{1, 2, 3}", "Times": "{0, 1}", "Props": "{<<0, 1>>, <<1, 2>>}"}, invariants=inv), "up to 4 events")
        run.model("MCDecluster", cfg(constants=base | {"N": 5, "Mags": "{2, 3}", "Times": "{0, 1}", "Places": "{0, 1}", "Props": "{<<1, 1>>}"}, invariants=inv), "up to 5 events")
    pick = lambda rng, l: l[int(rng.integers(len(l)))]
    keep = cases if run.thorough else [c for i, c in enumerate(cases) if i % max(1, len(cases) // 2000) == 0]

    def small(c, rng):                     # model cases: equator, position unit 60 degrees, time unit one day
        from seismostats import Catalog
        n = len(c["e"])
        table = {m * 10: ((m - 1 + .5) * 60 / UNIT * KM, 2. * (m - 1)) for m in (1, 2, 3)}
        mags = [10 * e[0] for e in c["e"]]
        t = [e[1] * DAY for e in c["e"]]
        xs = [e[2] * 6000 for e in c["e"]]
        off = int(rng.integers(-18000, 18000))
        lon = [((x + off + 18000) % 36000 - 18000) * UNIT for x in xs]
        win = [{"sp": (m // 10 - 1) * 6000, "aft": 2 * (m // 10 - 1) * DAY} for m in mags]
        e = run_one(rng, mags, t, lon, [0.] * n, window_class(table)(), tuple(c["f"]), win, "line", xs, [], cls=pick(rng, [None, Catalog]) if n else None, labels=labels_for(rng, n))
        return {"ev": [e]}
    sessions = run.pmap(small, keep, 1)

    def larger(k, rng):
        from seismostats import Catalog
        from seismostats.analysis.declustering import GardnerKnopoffWindow, GruenthalWindow, UhrhammerWindow
        for _ in range(60):
            n = int(rng.integers(1, 40)) if k % 3 else int(rng.integers(2, 9))
            long = k % 100 == 7
            if long:
                n = int(pick(rng, [150, 300, 500]))
            real = rng.random() < .5 and not long
            fs = pick(rng, [(0, 1), (1, 4), (1, 2), (1, 1), None])
            cutoff = None if rng.random() < .6 else float(pick(rng, [0, 1, 2, 10, 0.5, 100]))
            if real:
                mags = rng.integers(20, 75, n) if rng.random() < .6 else rng.integers(50, 56, n)
                w = pick(rng, [GardnerKnopoffWindow, GruenthalWindow, UhrhammerWindow])
                window = w(cutoff) if cutoff is not None or rng.random() < .5 else w()
                sp, tw = w()._calc(np.array(mags) / 10.)
                tw = np.array(tw)
            else:
                mags = rng.integers(1, 6, n) * 10
                table = {m * 10: (0. if rng.random() < .15 else float(rng.integers(0, 2000)) * KM + KM / 2, int(rng.integers(0, 400)) / 4.) for m in range(1, 6)}
                window = window_class(table)(cutoff) if cutoff is not None else window_class(table)()
                sp = np.array([table[int(m)][0] for m in mags])
                tw = np.array([table[int(m)][1] for m in mags])
            if cutoff is not None:
                tw = np.minimum(tw, cutoff)
            span = max(2, int(np.median(tw) * DAY * pick(rng, [.5, 1, 3])))
            t = rng.integers(0, min(span * 3 + 2, 1_500_000_000), n)
            if rng.random() < .3:
                t = (t // DAY) * DAY
            geo = pick(rng, ["line", "meridian", "sphere"] if not long else ["line", "meridian"])
            if long:
                t = t * int(pick(rng, [3, 30])) % 1_500_000_000
            reach = max(4, int(np.median(sp) / KM * pick(rng, [.5, 1, 2])))
            xs = rng.integers(0, 2 * reach, n)
            if geo == "line":
                off = int(pick(rng, [0, 18000 - reach, int(rng.integers(-18000, 18000))]))
                lon, lat = ((xs + off + 18000) % 36000 - 18000) * UNIT, np.zeros(n)
                dist = np.abs(xs[:, None] - xs[None]) % 36000
                D = np.minimum(dist, 36000 - dist) * 1.
            elif geo == "meridian":
                if 2 * reach > 17000:
                    continue
                lon, lat = np.full(n, float(pick(rng, [0, 8.3, -179.9, 180]))), (xs - reach) * UNIT
                D = np.abs(xs[:, None] - xs[None]) * 1.
            else:
                lat0, lon0 = float(pick(rng, [47, -35, 0, 80])), float(pick(rng, [8, 179.9, -120]))
                lon = ((lon0 + rng.integers(-reach, reach, n) * UNIT / max(.2, np.cos(np.radians(lat0))) + 180) % 360) - 180
                lat = np.clip(lat0 + rng.integers(-reach, reach, n) * UNIT, -90, 90)
                D = great_circle(lon, lat) / KM
            # distances and times close to a window limit are left to exact cases
            spu = sp / KM
            if np.min(np.abs(D - spu[:, None]) + 10. * (np.eye(n) > 0) + 10. * ((D == 0) & (spu == 0)[:, None])) < 1e-4:
                continue
            awin = np.floor(tw * DAY + 1e-6).astype("int64")
            exact = np.allclose(tw * DAY, awin, atol=1e-7) and np.all(awin % 4 == 0)
            if not exact:
                dt = np.abs(t[None, :] - t[:, None])
                f = 1 if fs is None else fs[0] / fs[1]
                near = np.minimum(np.abs(dt - (tw * DAY)[:, None]), np.abs(dt - (tw * DAY * f)[:, None]))
                near[dt == 0] = 9 if f == 0 or np.all(tw * f * DAY > 3) or np.all(tw == 0) else 0
                if near.min() < 3:
                    continue
            if awin.max() > 2_000_000_000:
                continue
            break
        else:
            return None
        win = [{"sp": int(np.floor(s)), "aft": int(a)} for s, a in zip(spu, awin)]
        Di = [[int(np.floor(x)) for x in row] for row in D]
        if geo == "sphere":            # keep the comparison of real distances when rounding to integers
            Di = [[win[i]["sp"] if D[i][j] <= spu[i] else win[i]["sp"] + 1 for j in range(n)] for i in range(n)]
        ev = []
        start = pick(rng, ["2020-01-01", "1999-12-31T23:59:59.7", "1950-06-01"])
        for rep in range(2):               # the same events with other labels and another row order
            p = np.arange(n) if rep == 0 else rng.permutation(n)
            ev.append(run_one(rng, mags[p], t[p], lon[p], lat[p], window, fs, [win[i] for i in p], "line" if geo != "sphere" else "matrix", xs[p], [[Di[i][j] for j in p] for i in p] if geo == "sphere" else [],
                              cls=pick(rng, [None, Catalog]), labels=labels_for(rng, n), extra=bool(rng.random() < .4), start=start))
        return {"ev": ev}
    sessions += [s for s in run.pmap(larger, range(run.n(900, 12000)), 2) if s]

    def other(k, rng):                     # other time types, missing columns
        from seismostats import Catalog
        from seismostats.analysis.declustering import GardnerKnopoffWindow
        n = int(rng.integers(2, 8))
        mags = rng.integers(1, 4, n) * 10
        table = {m * 10: ((m * 5.5 + .25) * KM, m * 5.) for m in range(1, 4)}
        win = [{"sp": int(m // 10 * 5.5 + .25), "aft": int(m // 10) * 5 * DAY} for m in mags]
        days = rng.integers(0, 30, n)
        xs = rng.integers(0, 25, n)
        kind = pick(rng, ["tz", "s", "us", "early", "long", "missing", "parsed"])
        t = days * DAY
        times = {"tz": lambda: pd.Timestamp("2020-01-01", tz="UTC") + pd.to_timedelta(days, unit="D"), "s": lambda: np.array([np.datetime64("2020-01-01") + np.timedelta64(int(x), "D") for x in days], dtype="datetime64[s]"),
                 "us": lambda: np.array([np.datetime64("2020-01-01") + np.timedelta64(int(x), "D") for x in days], dtype="datetime64[us]"), "parsed": lambda: pd.to_datetime([str(np.datetime64("2020-01-01") + np.timedelta64(int(x), "D")) for x in days]),
                 "early": lambda: [__import__("datetime").datetime(1356, 10, 1) + __import__("datetime").timedelta(days=int(x)) for x in days], "missing": lambda: None,
                 "long": lambda: [__import__("datetime").datetime(1356, 10, 1) + __import__("datetime").timedelta(days=int(x) + (365 * 640 if i % 2 else 0)) for i, x in enumerate(days)]}[kind]()
        if kind == "long":                 # far apart events are as good as 600 days apart
            t = np.array([(int(x) + (600 if i % 2 else 0)) * DAY for i, x in enumerate(days)])
        e = run_one(rng, mags, t, xs * UNIT, np.zeros(n), window_class(table)(), (1, 1), win, "line", xs, [], times=times, labels=labels_for(rng, n),
                    drop=pick(rng, COLS) if kind == "missing" else None, cls=Catalog if kind != "missing" and rng.random() < .5 else None)
        return {"ev": [e]}
    sessions += run.pmap(other, range(run.n(150, 1500)), 3)

    def windows(k, rng):
        import seismostats.analysis.declustering as D
        cls = ["GardnerKnopoffWindow", "GruenthalWindow", "UhrhammerWindow"][k % 3]
        lo = {"GardnerKnopoffWindow": -100, "GruenthalWindow": 0, "UhrhammerWindow": -50}[cls]
        m = np.unique(np.concatenate([rng.integers(lo, 801, 20), [650, 649, 651, lo]]))
        m = rng.permutation(m)
        if k % 7 == 0:
            m = m[:1]
        cut = None if k % 4 == 0 else float(pick(rng, [0, .5, 1, 10, 30, 365, 1000, 2000]))
        w = getattr(D, cls)
        arg = np.array(m) / 100.
        if k % 5 == 0:
            arg = pd.Series(arg, index=rng.permutation(len(m)) + 3)
        if k % 11 == 0:
            m = np.unique(m // 100) * 100
            arg = m // 100
        before = np.array(arg)
        a, err = call(lambda: w()(arg))
        b, err2 = call(lambda: (w(cut) if cut is not None else w())(arg))
        e = {"op": "window", "cls": cls, "mags": [int(x) for x in m], "err": err or err2, "cutoff": -1 if cut is None else int(cut * DAY), "sizes": [], "capped": [], "unchanged": bool(np.array_equal(before, np.array(arg)))}
        if not e["err"]:
            def sizes(r):
                out = []
                for s, t in zip(np.asarray(r[0], dtype=float), [pd.Timedelta(x) for x in np.asarray(r[1])]):
                    d = t / pd.Timedelta(days=1)
                    L = lambda f, x: int(round(f(x) * 1e6)) if x > 0 else NOTINT
                    out.append({"sp": int(round(s * 1000)), "ds": int(round(d * DAY)), "lgsp": L(math.log10, s), "lnsp": L(math.log, s), "lgt": L(math.log10, d), "lnt": L(math.log, d),
                                "sqsp": L(lambda x: (math.log(x) - 1.77) ** 2, s), "sqt": L(lambda x: (math.log(x) + 3.95) ** 2, d)})
                return out
            e["sizes"], e["capped"] = sizes(a), sizes(b)
        return {"ev": [e]}
    sessions += run.pmap(windows, range(run.n(120, 1200)), 4)
    run.judge("TraceDecluster", sessions, constants="CONSTANT WholeTurn = 36000\n")
    run.assumptions += ["the great-circle distance between points off the equator and off a common meridian is computed by the driver with vectors", "catalogues with NaN magnitudes are not declustered (the window functions refuse them)"]
