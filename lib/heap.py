"""Contents of objects as tokens, and writing into objects the way a caller would."""
import datetime, math
import numpy as np
import pandas as pd

ATTR = ["mc", "b_value", "a_value", "delta_m"]


def rounded(x):
    x = float(x)
    if x != x:
        return "nan"
    if math.isinf(x) or x == 0:
        return repr(x + 0.)
    return "0.0" if abs(x) < 1e-9 else f"{x:.8e}"


class Contents:
    """equal contents, equal tokens (within one session)"""
    def __init__(self):
        self.ids = {}

    def _id(self, s):
        return self.ids.setdefault(s, len(self.ids) + 1)

    def text(self, x, num):
        if isinstance(x, (bool, np.bool_)):
            return "b" + str(bool(x))
        if isinstance(x, (int, np.integer)):
            return "i" + str(int(x)) if num is repr else "f" + num(x)
        if isinstance(x, (float, np.floating)):
            return "f" + num(float(x))
        if isinstance(x, pd.Index):
            return "I" + self.text(x.to_numpy(), num) + repr(list(x.names))
        if isinstance(x, pd.DataFrame):
            cols = [x.iloc[:, j] for j in range(x.shape[1])]
            return type(x).__name__ + repr(list(x.columns)) + "|".join(str(c.dtype) + self.text(c.to_numpy(), num) for c in cols) + self.text(x.index, num) + repr(x.attrs)
        if isinstance(x, pd.Series):
            return "S" + repr(x.name) + str(x.dtype) + self.text(x.to_numpy(), num) + self.text(x.index, num)
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "fc" and num is not repr:
                return f"A{x.dtype.kind}{x.shape}" + ",".join(num(v) for v in x.ravel().view(float))
            if x.dtype.kind in "iu" and num is not repr:
                return f"A{x.shape}" + repr(x.tolist())
            if x.dtype == object:
                return f"O{x.shape}" + ",".join(self.text(v, num) for v in x.ravel())
            return f"A{x.dtype}{x.shape}" + repr(x.tolist())
        if isinstance(x, dict):
            return "D{" + ",".join(repr(k) + ":" + self.text(v, num) for k, v in x.items()) + "}"
        if isinstance(x, (list, tuple)):
            return type(x).__name__[0] + "[" + ",".join(self.text(v, num) for v in x) + "]"
        if hasattr(x, "wkt"):
            return "W" + x.wkt
        if isinstance(x, (str, bytes, type(None), datetime.datetime, datetime.timedelta, np.datetime64, np.timedelta64)) or x is pd.NaT or x is pd.NA:
            return repr(x)
        return "?" + type(x).__name__

    def parts(self, x):
        """the six parts of an object"""
        p = [self._id("d" + self.text(x, repr))]
        for a in ATTR:
            p.append(self._id("a" + self.text(getattr(x, a, None), repr)) if isinstance(x, pd.DataFrame) and a in getattr(x, "_metadata", []) else 0)
        p.append(self._id("r" + ";".join(a + self.text(getattr(x, a, None), repr) for a in getattr(x, "_metadata", []) if a not in ATTR and a != "logger")) if isinstance(x, pd.DataFrame) else 0)
        return p

    def result(self, x):
        """content up to rounding of the arithmetic"""
        s = self.text(x, rounded)
        if isinstance(x, pd.DataFrame):
            s += ";".join(a + self.text(getattr(x, a, None), rounded) for a in getattr(x, "_metadata", []) if a != "logger")
        return self._id("R" + s)


def other(v):
    """another value of the same kind"""
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return v + 1
    if isinstance(v, (float, np.floating)):
        return 0.5 if v != v else round(float(v) + .1, 10)
    if isinstance(v, (datetime.datetime, pd.Timestamp, np.datetime64)):
        return v + np.timedelta64(1, "D") if isinstance(v, np.datetime64) else v + datetime.timedelta(days=1)
    if isinstance(v, str):
        return v + "_"
    return v


def poke(x):
    """writes into x, wherever it can be written into; number of writes that succeeded"""
    n = 0
    try:
        if isinstance(x, pd.DataFrame):
            for j in range(x.shape[1]):
                a = x.iloc[:, j]
                new = [other(v) for v in a]
                x.iloc[:, j] = pd.Series(new, index=x.index, dtype=a.dtype).values
                n += len(new)
            for a in getattr(x, "_metadata", []):
                v = getattr(x, a, None)
                n += poke(v) if isinstance(v, (list, dict, np.ndarray)) else 0
        elif isinstance(x, pd.Series):
            x.iloc[:] = pd.Series([other(v) for v in x], index=x.index, dtype=x.dtype).values
            n += len(x)
        elif isinstance(x, np.ndarray):
            if x.size and x.flags.writeable:
                if x.dtype == object:
                    for i, v in np.ndenumerate(x):
                        n += poke(v)
                        x[i] = other(v)
                x[...] = x + np.timedelta64(1, "D") if x.dtype.kind == "M" else ~x if x.dtype.kind == "b" else np.where(np.isnan(x), .5, np.round(x + .1, 10)) if x.dtype.kind == "f" else x + 1 if x.dtype.kind in "iu" else x
                n += x.size
        elif isinstance(x, dict):
            for k in list(x):
                n += poke(x[k])
                if other(x[k]) is not x[k]:
                    x[k] = other(x[k])
                    n += 1
            x["poked"] = x.get("poked", 0) + 1
            n += 1
        elif isinstance(x, list):
            for i, v in enumerate(x):
                n += poke(v)
                x[i] = tuple(other(y) for y in v) if isinstance(v, tuple) else other(v)
                n += 1
        elif isinstance(x, tuple):
            for v in x:
                n += poke(v)
    except (ValueError, TypeError, AttributeError):
        pass
    return n
