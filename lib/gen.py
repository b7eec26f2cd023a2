"""Helpers shared by the drivers: value construction, containers, catalogues, snapshots."""
import math, hashlib
from decimal import Decimal
import numpy as np
import pandas as pd
from vh import NOTINT, units, rat, small_int, call

NANV = NOTINT - 1


def mag(v, u):
    """integer number of units -> the float a user would write"""
    if v == NANV:
        return float("nan")
    return float(Decimal(int(v)) * Decimal(str(u)))


def mags(vs, u):
    return np.array([mag(v, u) for v in vs], dtype=float)


def container(x, kind):
    if kind == "list":
        return [float(v) for v in x]
    if kind == "series":
        return pd.Series(np.array(x, dtype=float), index=np.arange(len(x))[::-1] + 5)
    return np.array(x, dtype=float)


def tounits(a, u):
    return [units(v, u) for v in np.asarray(a, dtype=float).ravel()]


def fingerprint(o):
    """Value fingerprint of (nested) data, insensitive to object identity."""
    h = hashlib.sha1()

    def f(x):
        if isinstance(x, (pd.DataFrame, pd.Series)):
            h.update(type(x).__name__.encode())
            if isinstance(x, pd.DataFrame):
                for c in x.columns:
                    h.update(repr(c).encode())
                    f(x[c].to_list() if not isinstance(x[c], pd.DataFrame) else x[c].values.tolist())
                    h.update(str(x[c].dtype).encode() if not isinstance(x[c], pd.DataFrame) else b"")
                for m in getattr(x, "_metadata", []):
                    if m not in ("logger",):
                        h.update(f"{m}={getattr(x, m, None)!r}".encode())
            else:
                f(x.to_list())
            h.update(repr(list(x.index)).encode())
            h.update(repr(list(x.index.names)).encode())
        elif isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode())
            f(x.tolist())
        elif isinstance(x, (list, tuple)):
            h.update(type(x).__name__.encode() + b"[")
            for y in x:
                f(y)
            h.update(b"]")
        elif isinstance(x, dict):
            for k in x:
                h.update(repr(k).encode())
                f(x[k])
        elif isinstance(x, (float, np.floating)):
            h.update(b"nan" if math.isnan(x) else repr(float(x)).encode())
        else:
            h.update(repr(x).encode())
    f(o)
    return h.hexdigest()


def base_cat(magnitudes, **kw):
    from seismostats import Catalog
    n = len(magnitudes)
    d = {"longitude": np.arange(n) * 0.5, "latitude": np.arange(n) * 0.25 + 40, "depth": np.arange(n) * 1.0,
         "time": pd.date_range("2020-01-01", periods=n, freq="h"), "magnitude": np.asarray(magnitudes, dtype=float),
         "magnitude_type": ["ML"] * n}
    return Catalog(d, **kw)
