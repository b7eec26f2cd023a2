"""C15 - estimation methods of a catalogue."""
import hashlib, itertools
import numpy as np
import pandas as pd
from vh import *
from seismostats.analysis import (ClassicBValueEstimator, UtsuBValueEstimator, BPositiveBValueEstimator, BMorePositiveBValueEstimator,
                                  ClassicAValueEstimator, APositiveAValueEstimator, AMorePositiveAValueEstimator,
                                  estimate_mc_maxc, estimate_mc_ks, estimate_mc_b_stability)
from seismostats.analysis.bvalue.base import BValueEstimator
from seismostats.analysis.avalue.base import AValueEstimator


class Fails(Exception):
    pass


def arr(x):
    return None if x is None else [str(v) for v in np.asarray(x).tolist()]


class ScriptB(BValueEstimator):
    """an estimator of the user's own with an extra column argument"""
    _weights_supported = True
    fail = False

    def calculate(self, magnitudes, mc, delta_m, times=None, depths=None, weights=None, dmc=None):
        if type(self).fail:
            raise Fails()
        self.got = [arr(magnitudes), float(mc), float(delta_m), arr(times), arr(depths), arr(weights), dmc]
        self.magnitudes, self.weights, self.mc, self.delta_m = np.asarray(magnitudes), weights, mc, delta_m
        self._b = int(hashlib.sha1(repr(self.got).encode()).hexdigest()[:6], 16) / 2**20
        setattr(self, "_BValueEstimator__b_value", self._b)
        return self._b

    def _estimate(self):
        return 1.0

    @property
    def b_value(self):
        return self._b


class ScriptBNoW(ScriptB):
    _weights_supported = False


class ScriptA(AValueEstimator):
    fail = False

    def calculate(self, magnitudes, mc, delta_m, times=None, scaling_factor=None, m_ref=None, b_value=None, depths=None, dmc=None):
        if type(self).fail:
            raise Fails()
        self.got = [arr(magnitudes), float(mc), float(delta_m), arr(times), arr(depths), scaling_factor, m_ref, b_value, dmc]
        self._a = int(hashlib.sha1(repr(self.got).encode()).hexdigest()[:6], 16) / 2**20
        return self._a

    def _estimate(self):
        return 1.0

    @property
    def a_value(self):
        return self._a


BM = [ClassicBValueEstimator, UtsuBValueEstimator, BPositiveBValueEstimator, BMorePositiveBValueEstimator, ScriptB, ScriptBNoW]
AM = [ClassicAValueEstimator, APositiveAValueEstimator, AMorePositiveAValueEstimator, ScriptA]
TIMES = {BPositiveBValueEstimator, BMorePositiveBValueEstimator, APositiveAValueEstimator, AMorePositiveAValueEstimator, ScriptB, ScriptBNoW, ScriptA}


def tok(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:7], 16)


def num(x):
    if x is None:
        return 0
    x = float(x)
    return 999999999 if x != x else tok(repr(x)) + 1


def res_est(e):
    if hasattr(e, "got"):
        return tok(repr(e.got))
    return tok(repr([repr(float(e.value)), [int(i) for i in np.asarray(e.idx)], [float(x) for x in e.magnitudes], int(e.n),
                     arr(getattr(e, "weights", None)), arr(getattr(e, "times", None)), float(e.mc), float(e.delta_m)]))


def res_mc(mc, info):
    def f(v):
        if isinstance(v, dict):
            return {k: f(x) for k, x in sorted(v.items())}
        if isinstance(v, (list, tuple, np.ndarray)):
            return [f(x) for x in v]
        return repr(float(v)) if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) else repr(v)
    return tok(repr([f(mc), f(info)]))


def catalog(rng):
    from seismostats import Catalog, ForecastCatalog
    n = int(rng.integers(25, 60))
    k = np.floor(rng.exponential(4.3, n)).astype(int)
    m = np.round(k * .1, 1) + (0.0 if rng.random() < .5 else 1.0) - (0.5 if rng.random() < .3 else 0)
    d = {"magnitude": np.round(m, 1), "time": pd.Timestamp("2020-01-01") + pd.to_timedelta(np.sort(rng.choice(10000, n, replace=False)), unit="h"),
         "depth": rng.integers(0, 20, n) * 1.0, "latitude": 1.0 * np.arange(n), "longitude": 2.0 * np.arange(n)}
    perm = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    for c in ("time", "depth"):
        if rng.random() < .2:
            d.pop(c)
    if rng.random() < .5:
        d["weight"] = rng.integers(1, 5, n) / 2
    df = pd.DataFrame(d).iloc[perm]
    if rng.random() < .5:
        df = df.reset_index(drop=True)
    if rng.random() < .2:
        df["catalog_id"] = 0
        return ForecastCatalog(df)
    return Catalog(df)


VALS = {"mc": [0.5, 1.0, 0.0, -0.3, 1.2, 0.7], "delta_m": [0.1, 0.2, 0.1, 0.1, 0.3], "b_value": [1.0, 0.9, 1.3, 0.8]}


class H:
    def __init__(self, rng, given):
        self.rng = rng
        self.cat = catalog(rng)
        self.ev = []
        self.val = {}
        g = {}
        for p in ("mc", "delta_m", "b_value"):
            v = self.value(p) if given[p] else None
            setattr(self.cat, p, v)
            g[p] = num(v)
        self.cat.name = "x"
        self.ev.append({"op": "new", "given": g, "after": self.look()})

    def value(self, p):
        vs = VALS[p]
        if p == "mc" and self.rng.random() < .7:
            return [0.5, 1.0, 0.0][int(self.rng.integers(3))]
        if p == "delta_m" and self.rng.random() < .7:
            return 0.1
        return vs[int(self.rng.integers(len(vs)))]

    def look(self):
        from gen import fingerprint
        a = {p: num(getattr(self.cat, p)) for p in ("mc", "delta_m", "b_value", "a_value")}
        for p in ("name", "starttime", "endtime", "bounding_polygon", "depth_min", "depth_max"):
            a[p] = tok(repr(getattr(self.cat, p)))
        return {"attrs": a, "data": tok(fingerprint(pd.DataFrame(self.cat, copy=True)) + type(self.cat).__name__)}

    def set(self, p, on):
        v = self.value(p) if on else None
        setattr(self.cat, p, v)
        self.ev.append({"op": "set", "p": p, "v": num(v), "after": self.look()})

    def est(self, m, exf, ok):
        rng, cat = self.rng, self.cat
        ex = {p: (self.value(p) if exf[p] else None) for p in exf}
        cols = {c: (cat[c].copy() if c in cat.columns else None) for c in ("weight", "time", "depth")}
        n = len(cat)
        e = {"op": "est", "m": m, "ex": {p: num(v) for p, v in ex.items()}, "nomag": False, "givenw": 0, "givent": 0, "givenx": 0, "usew": False, "uset": False, "usex": False,
             "colw": 0, "colt": 0, "colx": 0}
        passed = {p: v for p, v in ex.items() if v is not None or rng.random() < .2}
        seed = int(rng.integers(10**6))
        rows, seen = [], set()
        at = {p: getattr(cat, p) for p in ("mc", "delta_m", "b_value")}

        def cands(*vs):
            out, s = [], set()
            for v in vs:
                if v is not None and num(v) not in s:
                    s.add(num(v))
                    out.append(v)
            return out

        if m in ("a", "b"):
            cls = (BM if m == "b" else AM)[int(rng.integers(len(BM if m == "b" else AM)))]
            if not ok:
                cls = {"b": ScriptB, "a": ScriptA}[m]
            e["what"] = cls.__name__
            e["usew"] = bool(m == "b" and cls._weights_supported)
            e["uset"] = cls in TIMES
            e["usex"] = cls in (ScriptB, ScriptBNoW, ScriptA)
            W = {0: None, 1: cols["weight"]}
            T = {0: None, 1: cols["time"]}
            X = {0: None, 1: cols["depth"]}
            e["colw"], e["colt"], e["colx"] = (int(cols[c] is not None) for c in ("weight", "time", "depth"))
            kw = {}
            if m == "b" and rng.random() < .3:
                W[2] = list(rng.integers(1, 7, n) / 3)
                kw["weights"], e["givenw"] = W[2], 2
            elif m == "b" and rng.random() < .2:
                kw["weights"] = None
            if e["uset"] and rng.random() < .3:
                T[2] = np.asarray(rng.permutation(n), dtype=float)
                kw["times"], e["givent"] = T[2], 2
            if e["usex"] and rng.random() < .3:
                X[2] = np.asarray(rng.permutation(n), dtype=float)
                kw["depths"], e["givenx"] = X[2], 2
            fixed = {}
            if m == "a":
                if rng.random() < .3:
                    fixed["scaling_factor"] = 2.5
                if rng.random() < .3:
                    fixed["m_ref"] = 0.7
                if rng.random() < .6:
                    b = self.value("b_value")
                    passed["b_value"], e["ex"]["b_value"] = b, num(b)
                    ex["b_value"] = b
                else:
                    ex["b_value"] = None
                    e["ex"]["b_value"] = 0
                    passed.pop("b_value", None)
            if (e["uset"] or e["usex"]) and rng.random() < .3:
                fixed["dmc"] = 0.2
            meth = cat.estimate_b if m == "b" else cat.estimate_a
            kw.update(fixed)
            kw["method"] = cls
            if cls is (ClassicBValueEstimator if m == "b" else ClassicAValueEstimator) and rng.random() < .5:
                kw.pop("method")
            mags = cat["magnitude"].copy() if "magnitude" in cat.columns else None
            for mc, dm, w, t, x in itertools.product(cands(ex["mc"], at["mc"]), cands(ex["delta_m"], at["delta_m"]), W if e["usew"] else [0], T if e["uset"] else [0], X if e["usex"] else [0]):
                if (w and W[w] is None) or (t and T[t] is None) or (x and X[x] is None) or mags is None:
                    continue
                a = dict(fixed)
                if w:
                    a["weights"] = W[w]
                if t:
                    a["times"] = T[t]
                if x:
                    a["depths"] = X[x]
                if m == "a":
                    a["b_value"] = ex["b_value"]
                o = cls()
                cls.fail = not ok
                _, err = call(o.calculate, mags, mc, dm, **a)
                cls.fail = False
                rows.append({"mc": num(mc), "dm": num(dm), "b": num(ex["b_value"]) if m == "a" else 0, "w": w, "t": t, "x": x, "err": err, "res": 0 if err else res_est(o),
                             "value": 0 if err else num(o.b_value if m == "b" else o.a_value)})
            cls.fail = not ok
            r, e["err"] = call(meth, **{k: v for k, v in passed.items() if k in (("mc", "delta_m") if m == "b" else ("mc", "delta_m", "b_value"))}, **kw)
            cls.fail = False
            e["res"] = 0 if e["err"] else res_est(r)
        else:
            nomag = "magnitude" not in cat.columns
            mags = None if nomag else cat["magnitude"].copy()
            kw = {}
            if m == "maxc":
                kw = {"fmd_bin": [.1, .2, .5][int(rng.integers(3))] if ok else 0}
                if rng.random() < .5:
                    kw["correction_factor"] = [0, .2, .3][int(rng.integers(3))]
                fn, meth, keys = estimate_mc_maxc, cat.estimate_mc_maxc, ()
                combos = [{}]
            elif m == "stability":
                bm = BM[int(rng.integers(2))]
                kw = {"b_method": bm, "stability_range": [.5, .3, 1.][int(rng.integers(3))], "stop_when_passed": bool(rng.random() < .6)}
                if rng.random() < .5:
                    kw["mcs_test"] = np.round(np.arange(0, 2, .1), 1) + (0 if ok else .033)
                elif not ok:
                    kw["stability_range"] = 99.
                if rng.random() < .2 and "weight" in cat.columns:
                    kw["weights"] = cat["weight"].copy()
                fn, meth, keys = estimate_mc_b_stability, cat.estimate_mc_b_stability, ("delta_m",)
                combos = [{"delta_m": v} for v in cands(ex["delta_m"], at["delta_m"])]
            else:
                bm = BM[int(rng.integers(2))]
                kw = {"b_method": bm, "n": 15, "p_value_pass": [.1, .5, .05][int(rng.integers(3))], "stop_when_passed": bool(rng.random() < .6),
                      "mcs_test": list(np.round(np.arange(.5, 1.5, .1), 1) + (0 if ok else .033))}
                fn, meth, keys = estimate_mc_ks, cat.estimate_mc_ks, ("delta_m", "b_value")
                combos = [{"delta_m": v, "b_value": b} for v in cands(ex["delta_m"], at["delta_m"]) for b in [None] + cands(ex["b_value"], at["b_value"])]
            for c in combos if not nomag else []:
                np.random.seed(seed)
                r, err = call(fn, mags, **c, **kw)
                rows.append({"mc": 0, "dm": num(c.get("delta_m")), "b": num(c.get("b_value")), "w": 0, "t": 0, "x": 0, "err": err, "res": 0 if err else res_mc(*r), "value": 0 if err else num(r[0])})
            np.random.seed(seed)
            r, e["err"] = call(meth, **{k: v for k, v in passed.items() if k in keys}, **kw)
            e["res"] = 0 if e["err"] else res_mc(*r)
            if m == "maxc":
                e["ex"] = {p: 0 for p in ex}
                for x in rows:
                    x["dm"] = 0
        e["nomag"] = "magnitude" not in cat.columns
        e["rows"] = rows
        e["after"] = self.look()
        self.ev.append(e)


def main(run):
    cases = run.model("MCCatalogEst", cfg(constants=dict(Depth=run.n("2", "3")), invariants=["AttributesFollowHistory", "Emit"], properties=["OneStore", "FailureKeepsAll"]),
                      label="all histories of attributes, explicit arguments and failures")
    idx = run.rng.permutation(len(cases))[: run.n(900, 12000)]

    def replay(c, rng):
        h = None
        for s in c["h"]:
            if s["op"] == "new":
                h = H(rng, {p: s["a"][p] for p in ("mc", "delta_m", "b_value")})
            elif s["op"] == "set":
                h.set(s["p"], s["v"])
            else:
                h.est(s["m"], s["ex"], s["ok"])
        if rng.random() < .05:
            del h.cat["magnitude"]
            h.ev.append({"op": "new", "given": {}, "after": h.look()})
            h.est(["a", "b", "maxc", "ks", "stability"][int(rng.integers(5))], {"mc": 3, "delta_m": 3, "b_value": 0}, True)
        return {"ev": h.ev}
    sessions = run.pmap(replay, [cases[int(i)] for i in idx], 1)

    def long(k, rng):
        h = H(rng, {p: int(rng.random() < .6) for p in ("mc", "delta_m", "b_value")})
        for _ in range(int(rng.integers(4, 10))):
            if rng.random() < .2:
                h.set(["mc", "delta_m", "b_value"][int(rng.integers(3))], int(rng.random() < .7))
            else:
                m = ["a", "b", "a", "b", "maxc", "stability", "ks"][int(rng.integers(7))]
                tk = {"maxc": (), "stability": ("delta_m",), "ks": ("delta_m", "b_value")}.get(m, ("mc", "delta_m"))
                h.est(m, {p: int(p in tk and rng.random() < .4) for p in ("mc", "delta_m", "b_value")}, rng.random() < .85)
        return {"ev": h.ev}
    sessions += run.pmap(long, range(run.n(150, 2500)), 2)
    run.judge("TraceCatalogEst", sessions)
    run.assumptions += ["the standalone estimators themselves are decided by C03-C10"]
