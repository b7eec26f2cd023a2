"""Driver for the completeness estimators."""
import math
import numpy as np, pandas as pd
from vh import call, rat, units, NOTINT, cfg
from gen import *
from estdrv import CLS, times_of
from seismostats.analysis.estimate_mc import ks_test_gr, estimate_mc_ks, estimate_mc_b_stability
from seismostats.analysis.bvalue.base import BValueEstimator

NONE = NOTINT + 1
LOG = math.log10


def offset(rng, u, lo, span):
    """offset in bins keeping decimal magnitudes well below 7, where the documented absolute tolerance of the
    binning test (1e-15) is above the representation error of differences"""
    top = {0.2: 12, 0.1: 40, 0.05: 60, 0.01: 90}.get(u, 30)
    return int(rng.integers(lo, max(top - span, lo + 1)))


def unit_or_none(x, u):
    return NONE if x is None else units(x, u)


def bq(b, u):
    """b-value -> 10^(b delta)"""
    if b is None:
        return [9, 0]
    b = float(b)
    return rat(np.power(10.0, b * u) if not math.isinf(b) else b, 200000)


def fl(q):
    return math.inf if q == [1, 0] else LOG(q[0] / q[1])


def frac(x):
    return [rat(v, 5000000) for v in x]


def micro(x):
    x = float(x)
    if math.isnan(x):
        return -1
    if math.isinf(x) or x > 1500:
        return -2
    if x > 1000 * (1 - 1e-9):
        return -2
    return int(round(x * 1e6))


class Stub(BValueEstimator):
    """scripted estimator: b and std are simple functions of the complete sample (see McEstimation.tla)"""
    _weights_supported = True
    steps = 1

    def _state(self):
        u = self.delta_m
        c = int(round(self.mc / u))
        return [int(round(x / u)) for x in self.magnitudes], c

    def _estimate(self):
        a, c = self._state()
        return (8 + ((sum(a) - c * len(a) + 3 * len(a)) % 9)) / 8

    @property
    def std(self):
        a, c = self._state()
        s = 2 * ((len(a) + c) % 4) + (1 if type(self).steps % 2 == 1 else 2)
        return s / 16


def stub(steps):
    return type("Stub%d" % steps, (Stub,), {"steps": steps})


def sample(m, u, kind):
    a = mags(m, u)
    return pd.Series(a) if kind == "series" else a


def kstest(m, mc, q, u, kd=None, w=None, n=0, kind="array"):
    a = sample(m, u, kind)
    fp = fingerprint(a)
    kw = {}
    if w is not None:
        kw["weights"] = np.array(w, dtype=float)
    if kd is not None:
        ref = [k[0] / k[1] for k in kd]
        kw["ks_ds"] = np.array(ref) if kind == "array" else ref
    else:
        kw["n"] = n
    r, err = call(ks_test_gr, a, mag(mc, u), float(mag(1, u)), fl(q) / u, **kw)
    e = {"op": "kstest", "m": m, "mc": mc, "q": q, "hasw": w is not None, "w": w or [], "sim": kd is None,
         "kd": kd or [], "err": err, "d": [9, 0], "p": [9, 0], "ge": [], "nref": 0, "nwant": 0, "kept": fingerprint(a) == fp}
    if not err:
        p, d, ref = r
        e["d"], e["p"] = rat(d, 5000000), rat(p, 20000)
        e["nref"], e["nwant"] = len(ref), len(kd) if kd is not None else n
        if kd is None:
            e["ge"] = [bool(x >= d) for x in ref]
    return e, (r[1] if not err else None)


def ks_search(m, u, cand, thr, stop, method, q, t, kdl, kind="array", n=None):
    a = sample(m, u, kind)
    fp = fingerprint(a)
    kw = dict(p_value_pass=thr[0] / thr[1], stop_when_passed=stop)
    if cand is not None:
        c = [mag(x, u) for x in cand]
        kw["mcs_test"] = c if kind == "series" else np.array(c)
    if method == "given":
        kw["b_value"] = fl(q) / u
    else:
        kw["b_method"] = CLS[method]
        if t:
            kw["times"] = times_of(t, "ns")
    if kdl is not None:
        kw["ks_ds_list"] = [np.array([k[0] / k[1] for k in row]) for row in kdl]
    else:
        kw["n"] = n
    r, err = call(estimate_mc_ks, a, float(mag(1, u)), **kw)
    e = {"op": "ks" if kdl is not None else "kssim", "m": m, "isdef": cand is None, "cand": cand or [], "thr": thr, "stop": stop,
         "method": method, "q": q, "t": t, "kdl": kdl or [], "err": err, "best": NONE, "bestb": [9, 0], "tested": [],
         "bs": [], "ds": [], "ps": [], "kept": fingerprint(a) == fp}
    if not err:
        best, info = r
        e.update(best=unit_or_none(best, u), bestb=bq(info["best_b_value"], u), tested=[units(x, u) for x in info["mcs_tested"]],
                 bs=[bq(b, u) for b in info["b_values_tested"]], ds=frac(info["ks_ds"]), ps=[rat(x, 20000) for x in info["p_values"]])
    return e


def stab(m, u, cand, rng_, stop, kind, ctn="array"):
    a = sample(m, u, ctn)
    fp = fingerprint(a)
    kw = dict(stop_when_passed=stop, stability_range=mag(rng_, u), b_method=stub(rng_) if kind == "stub" else CLS["utsu"])
    if cand is not None:
        kw["mcs_test"] = [mag(x, u) for x in cand]
    r, err = call(estimate_mc_b_stability, a, float(mag(1, u)), **kw)
    e = {"op": "stab", "m": m, "isdef": cand is None, "cand": cand or [], "rng": rng_, "stop": stop, "kind": kind, "err": err,
         "best": NONE, "bestb": [9, 0], "tested": [], "bs": [], "ratios": [], "kept": fingerprint(a) == fp}
    if not err:
        best, info = r

        def b(x):
            if x is None:
                return [9, 0]
            if kind == "stub":
                return rat(x)
            return rat(1 / (float(x) * math.log(10) * u), 200000)
        e.update(best=unit_or_none(best, u), bestb=b(info["best_b_value"]), tested=[units(x, u) for x in info["mcs_tested"]],
                 bs=[b(x) for x in info["b_values_tested"]], ratios=[micro(float(x) ** 2) for x in info["diff_bs"]])
    return e
