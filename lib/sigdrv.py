"""Estimators whose values are exact integers, and projections, for the significance analysis and its plots."""
import functools, inspect, math
import numpy as np, pandas as pd
from vh import *

U = 0.1                                    # magnitude unit


def scripted(P, pos=False):
    """an estimator of one's own: depends on order, magnitudes and completeness it is given"""
    from seismostats.analysis.bvalue.base import BValueEstimator

    class Scripted(BValueEstimator):
        _weights_supported = False

        def _estimate(self):
            m = np.round(np.asarray(self.magnitudes) / U).astype(int)
            return float((int(np.sum(np.arange(1, len(m) + 1) * m)) + 3 * int(round(self.mc / U))) % P)
    return Scripted


def spying(base, quant, log, tback=None, cap=40):
    """the estimator with its value rounded to multiples of quant; every call is written down"""
    class Spying(base):
        def _q(self, v):
            return float(min(cap, max(-cap, round(v / quant)))) if np.isfinite(v) else math.nan

        @functools.wraps(base.calculate)
        def calculate(self, *a, **k):
            r = base.calculate(self, *a, **k)
            b = inspect.signature(base.calculate).bind(self, *a, **k).arguments
            v = self._q(r)
            log.append({"m": [units(x, U) for x in np.asarray(b["magnitudes"]).ravel()], "mc": units(b["mc"], U), "t": [tback(x) for x in np.asarray(b["times"]).ravel()] if b.get("times") is not None and tback else [],
                        "v": NOTINT - 1 if math.isnan(v) else int(v), "n": int(self.n)})
            return v

        @property
        def value(self):
            return self._q(base.value.fget(self))
        if getattr(getattr(base, "b_value", None), "fset", 1) is None:   # the estimate itself, not an option
            @property
            def b_value(self):
                return self._q(base.b_value.fget(self))
    return Spying


def times_as(t, kind):
    t = np.asarray(t)
    if kind == "int":
        return t.astype(int)
    if kind == "float":
        return t * 0.25 - 3
    d = np.datetime64("2021-03-01") + t.astype("timedelta64[h]")
    if kind == "py":
        return [x.astype("datetime64[us]").item() for x in d]
    if kind == "series":
        return pd.Series(d.astype("datetime64[ns]"), index=np.arange(len(t))[::-1])
    return d.astype("datetime64[ns]")


def tback(kind):
    if kind == "int":
        return lambda x: small_int(x)
    if kind == "float":
        return lambda x: units(x + 3, .25)
    return lambda x: units((pd.Timestamp(x) - pd.Timestamp("2021-03-01")) / pd.Timedelta(hours=1), 1)


def snap(*a):
    """deep copies for a later comparison of the arguments"""
    import copy
    return copy.deepcopy(a)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, pd.Index):
        return a.equals(b)
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return a.equals(b) and list(a.index) == list(b.index)
    return a == b or (isinstance(a, float) and math.isnan(a) and math.isnan(b))
