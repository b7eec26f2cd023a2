"""C16 - construction of catalogues."""
import math
from datetime import datetime, date, timedelta, timezone
from decimal import Decimal
import numpy as np
import pandas as pd
from vh import *
from gen import fingerprint
from seismostats import Catalog, ForecastCatalog

NUM = ["magnitude", "latitude", "longitude", "depth", "associatedphasecount", "usedphasecount", "associatedstationcount", "usedstationcount",
       "standarderror", "azimuthalgap", "secondaryazimuthalgap", "maximumdistance", "minimumdistance", "mediandistance"]
TEXT = ["magnitude_type", "event_type"]
NULLS = ["", "nan", "NaN", "none", "None", "na", "Na", "NA", "null", "Null", "NULL"]
TEXTS = NULLS + ["ML", "Mw", " ", "N/A", "nAn", "NONE", "mb_Lg", "earthquake", "not existing", "nana", "Nan ", "MLnan"]
OTHER = ["extra", "magnitude_ML", "time2", "comment", "evaluationmode", "magnitude_Mw_type", "type"]
UNC = ["time_uncertainty", "magnitude_uncertainty", "depth_lowerUncertainty", "latitude_upperUncertainty", "time_confidenceLevel", "magnitude_ML_uncertainty", "magnitude_ML_confidenceLevel"]
IDS = ["eventID", "originID", "magnitudeID", "magnitude_ML_magnitudeID", "magnitude_Mw_magnitudeID"]
LOOK = ["uncertainty_note", "eventIDs", "ID", "idevent", "confidence", "magnitude_uncertain", "lowerUncertainty2"]


# ---- notations of one meaning
def num_cell(rng):
    """(meaning, written)"""
    r = rng.random()
    if r < .12:
        return [1, 0], [None, float("nan"), "", "nan", "x", "1,5", "0x1A", "--", "1.2.3", "M3", "n/a", pd.NA][int(rng.integers(12))]
    if r < .16:
        return ([2, 0], ["inf", float("inf"), "Infinity"][int(rng.integers(3))]) if rng.random() < .5 else ([3, 0], ["-inf", float("-inf")][int(rng.integers(2))])
    scale = [10, 1000, 1000000, 100000][int(rng.integers(4))]
    v = int(rng.integers(-180 * scale, 180 * scale)) * (1000000 // scale)
    if rng.random() < .15:
        v = v // 1000000 * 1000000
    d = Decimal(v) / 1000000
    t = format(d.normalize(), "f")
    forms = [float(d), t, float(d), np.float64(float(d)), d, f" {t} ", t + "0" if "." in t else t + ".0", f"{d:E}"]
    if v >= 0:
        forms += ["+" + t, "0" + t]
    if v % 1000000 == 0:
        forms += [v // 1000000, np.int64(v // 1000000), str(v // 1000000)]
    return [0, v], forms[int(rng.integers(len(forms)))]


def time_forms(day, sec, us, off):
    """all notations of one clock time"""
    dt = datetime.fromordinal(day) + timedelta(seconds=sec, microseconds=us)
    D = f"{dt.year:04d}-{dt.month:02d}-{dt.day:02d}"
    hms = f"{dt.hour:02d}:{dt.minute:02d}:{dt.second:02d}"
    base = []
    fr = f"{us:06d}"
    for sep in "T ":
        base.append(f"{D}{sep}{hms}.{fr}")
        if us == 0:
            base.append(f"{D}{sep}{hms}")
            if dt.second == 0:
                base.append(f"{D}{sep}{hms[:5]}")
        else:
            base.append(f"{D}{sep}{hms}.{fr.rstrip('0')}")
    if off == 9999:
        out = list(base) + [dt]
        if us == 0 and sec == 0:
            out += [D]
        return out
    s = "+" if off >= 0 else "-"
    h, m = divmod(abs(off), 60)
    z = [f"{s}{h:02d}:{m:02d}", f"{s}{h:02d}{m:02d}"]
    if off == 0:
        z += ["Z"] * 3
    if m == 0:
        z += [f"{s}{h:02d}"]
    return [b + q for b in base for q in z] + [dt.replace(tzinfo=timezone(timedelta(minutes=off)))]


def time_cell(kind, rng, off=None, typ=None):
    if kind == "null":
        return [1, 0, 0, 0, 0], [None, float("nan"), pd.NaT, ""][int(rng.integers(4))] if typ != "obj" else pd.NaT
    if kind == "bad":
        return [2, 0, 0, 0, 0], ["garbage", "2020-13-01T00:00:00", "2020-01-40", "12:00", "1 Jan", "2020-01-01T25:00:00", "20-x"][int(rng.integers(7))]
    lo, hi = (datetime(1, 1, 2).toordinal(), datetime(1677, 9, 1).toordinal()) if kind.startswith("early") else (datetime(1678, 1, 1).toordinal(), datetime(2261, 12, 1).toordinal())
    day = int(rng.integers(lo, hi)) if rng.random() < .8 else int(rng.integers(hi - 400, hi))
    r = rng.random()
    sec = 0 if r < .2 else int(rng.integers(0, 1440)) * 60 if r < .35 else int(rng.integers(0, 86400))
    us = 0 if rng.random() < .5 or sec == 0 else [int(rng.integers(1, 1000000)), int(rng.integers(1, 1000)) * 1000, 1, 999999][int(rng.integers(4))]
    o = 9999 if not kind.lower().endswith("zone") and kind not in ("zoneA", "zoneB") else (off if off is not None else int(rng.choice([0, 60, 120, -300, 330, -570])))
    f = time_forms(day, sec, us, o)
    f = [x for x in f if isinstance(x, datetime) == (typ == "obj")] or f
    return [0, day, sec, us, o], f[int(rng.integers(len(f)))]


def time_column(kinds, rng):
    typ = "obj" if rng.random() < .2 and "bad" not in kinds else "text"
    if rng.random() < .15:
        typ = None
    return [time_cell(k, rng, {"zoneA": 120, "zoneB": 0, "earlyzone": -60}.get(k) if rng.random() < .7 else None,
                      typ if typ else ("obj" if rng.random() < .5 and k != "bad" else "text")) for k in kinds]


# ---- observation
def see(name, x):
    if name == "time":
        if x is None or x is pd.NaT or (isinstance(x, float) and math.isnan(x)):
            return [1, 0, 0, 0]
        if getattr(x, "tzinfo", None) is not None or not isinstance(x, datetime):
            return [9, 0, 0, 0]
        s = x.hour * 3600 + x.minute * 60 + x.second
        return [0, x.toordinal(), s, x.microsecond]
    if name in NUM:
        try:
            f = float(x)
        except (TypeError, ValueError):
            return [1, 0] if x is pd.NA else [9, 0]
        if math.isnan(f):
            return [1, 0]
        if math.isinf(f):
            return [2 if f > 0 else 3, 0]
        return [0, units(f, 1e-6, tol=1e-3)]
    if name in TEXT:
        return "@missing" if x is None or x is pd.NA or (isinstance(x, float) and math.isnan(x)) else x if isinstance(x, str) else "@" + repr(x)
    return repr(float(x)) if isinstance(x, (float, np.floating)) and not math.isnan(x) else "nan" if isinstance(x, float) else "none" if x is None or x is pd.NA else repr(x)


def observe(r, n, index, kind):
    cols = [str(c) for c in r.columns]
    return {"rcols": cols, "rows": len(r), "n": n, "rindex": [repr(i) for i in r.index], "index": index,
            "res": [[see(c, x) for x in r.iloc[:, i].tolist()] for i, c in enumerate(cols)],
            "numeric": all(pd.api.types.is_numeric_dtype(r.iloc[:, i].dtype) for i, c in enumerate(cols) if c in NUM),
            "rkind": type(r).__name__, "kind": kind}


NORES = {"rcols": [], "rows": 0, "n": 0, "rindex": [], "index": [], "res": [], "numeric": True, "rkind": "", "kind": ""}


def cls_of(c):
    return "unc" if c in UNC else "id" if c in IDS else "other"


def table(rng, tkinds, n):
    """columns as (name, cells, written values)"""
    names = ["time"] if tkinds is not None else []
    names += [c for c in NUM if rng.random() < (.85 if c in NUM[:4] else .15)]
    names += [c for c in TEXT if rng.random() < .7]
    names += [c for c in OTHER + UNC + IDS + LOOK if rng.random() < .15]
    if rng.random() < .5:
        rng.shuffle(names)
    out = []
    for c in [str(x) for x in names]:
        if c == "time":
            cw = time_column(tkinds, rng)
        elif c in NUM:
            uniform = rng.random()
            if uniform < .3:
                vs = [int(v) for v in rng.integers(-10000, 10000, n)]
                cw = [([0, v * 1000], v / 1000) for v in vs]
            elif uniform < .4:
                vs = [int(v) for v in rng.integers(-180, 180, n)]
                cw = [([0, v * 1000000], v) for v in vs]
            else:
                cw = [num_cell(rng) for _ in range(n)]
        elif c in TEXT:
            ts = [TEXTS[int(rng.integers(len(TEXTS)))] if rng.random() < .9 else [None, float("nan")][int(rng.integers(2))] for _ in range(n)]
            cw = [("@missing" if not isinstance(t, str) else t, t) for t in ts]
        else:
            pool = [["", "nan", "none", "NULL", " x ", "a"], [1, 2, 3], [0.5, 1.25, float("nan")], [None, "x", "NA"], ["1.50", "0x1", "2020-01-01T00:00:00Z"], [True, False]][int(rng.integers(6))]
            vs = [pool[int(rng.integers(len(pool)))] for _ in range(n)]
            cw = [(None, v) for v in vs]
        out.append((c, [a for a, _ in cw], [b for _, b in cw]))
    return out


def construct(item, rng):
    kinds = item["kinds"]
    n = len(kinds) if kinds is not None else int(rng.integers(0, 6))
    cols = table(rng, kinds, n)
    if not cols:
        cols = [("magnitude", [[0, 1000000]] * n, [1.0] * n)]
    fc = rng.random() < .2
    if fc:
        cols.append(("catalog_id", [None] * n, [int(v) for v in rng.integers(0, 3, n)]))
    how = ["dict", "frame", "records", "frame_obj", "frame_index", "series", "from_dict", "from_dict", "catalog", "string", "category", "dictarray"][int(rng.integers(12))]
    if n == 0 and how in ("records", "from_dict"):
        how = "dict"
    cls = ForecastCatalog if fc and rng.random() < .7 else Catalog
    index, kwargs = [repr(i) for i in range(n)], {}
    data = {c: list(w) for c, _, w in cols}
    if how in ("dict",):
        arg = data
    elif how == "dictarray":
        arg = {c: (np.array(w, dtype=object) if c not in NUM or any(not isinstance(x, (int, float)) or isinstance(x, bool) for x in w) else np.array(w)) for c, w in data.items()}
    elif how == "series":
        arg = {c: pd.Series(w, dtype=object if rng.random() < .5 else None) for c, w in data.items()}
    elif how in ("records", "from_dict"):
        arg = [{c: data[c][i] for c in data} for i in range(n)]
    else:
        arg = pd.DataFrame(data, dtype=object if how == "frame_obj" else None)
        if how == "frame_index":
            arg.index = [[f"e{i}" for i in range(n)], list(range(n))[::-1], [5] * n][int(rng.integers(3))]
            index = [repr(i) for i in arg.index]
        elif how == "string":
            for c in arg.columns:
                if c in TEXT or c == "time" and all(isinstance(x, str) or x is None for x in data["time"]):
                    arg[c] = arg[c].astype("string")
        elif how == "category":
            for c in arg.columns:
                if c in TEXT:
                    arg[c] = arg[c].astype("category")
        elif how == "catalog":
            a2, e2 = call(Catalog, arg.copy())
            if e2:
                how = "frame"
            else:
                arg = a2
    # values of unrelated columns as the plain table has them
    plain, perr = call(pd.DataFrame, arg)
    if perr:
        return None
    ec = [{"name": c, "cls": cls_of(c), "cells": (m if c in NUM or c in TEXT or c == "time" else [see(c, x) for x in plain[c].tolist()])} for c, m, _ in cols]
    fp = fingerprint(arg)
    rec = how in ("records", "from_dict")
    unc, ids = True, True
    if how == "from_dict":
        unc, ids = bool(rng.random() < .5), bool(rng.random() < .5)
        pos = rng.random() < .5
        r, err = call(cls.from_dict, arg, unc, ids) if pos else call(cls.from_dict, arg, include_uncertainties=unc, include_ids=ids)
    else:
        r, err = call(cls, arg)
    e = {"op": "records" if rec else "table", "how": how, "cols": ec, "unc": unc, "ids": ids, "err": err, **NORES}
    kind = "Catalog" if cls is Catalog else "ForecastCatalog"
    if how == "from_dict" and not err:   # dropping columns goes by the columns
        kind = type(r).__name__ if cls is ForecastCatalog and type(r).__name__ in ("Catalog", "ForecastCatalog") else kind
    if not err:
        e.update(observe(r, n, index, kind))
    e["kept"] = fingerprint(arg) == fp
    if err == "" and item.get("mut", True) and how != "catalog" and isinstance(arg, (dict, list)):
        # the result owns its values where the data were lists
        for c in list(r.columns):
            if len(r):
                call(r.iloc.__setitem__, (0, list(r.columns).index(c)), r.iloc[-1][c])
        e["kept"] = e["kept"] and fingerprint(arg) == fp
    return {"ev": [e], "written": {c: [repr(x) for x in w] for c, _, w in cols}}


def drop(item, rng):
    n = int(rng.integers(0, 5))
    names = [str(x) for x in rng.permutation(["magnitude", "time", "depth"] + [c for c in UNC + IDS + LOOK + OTHER if rng.random() < .5])]
    cat = Catalog({c: [f"{c}{i}" if c not in ("magnitude", "depth", "time") else float(i) if c != "time" else f"2020-01-0{i + 1}" for i in range(n)] for c in names})
    cat.index = list(range(n))[::-1]
    if rng.random() < .3:
        cat["catalog_id"] = 1
        cat = ForecastCatalog(cat)
        names.append("catalog_id")
    fp = fingerprint(cat)
    which = ["unc", "id"][int(rng.integers(2))]
    r, err = call(cat.drop_uncertainties if which == "unc" else cat.drop_ids)
    see2 = lambda c, x: repr(see(c, x))
    e = {"op": "drop", "which": which, "cols": [{"name": c, "cls": cls_of(c), "cells": [see2(c, x) for x in cat[c].tolist()]} for c in names], "err": err, **NORES}
    if not err:
        e.update(observe(r, n, [repr(i) for i in cat.index], type(cat).__name__))
        e["res"] = [[see2(str(c), x) for x in r.iloc[:, i].tolist()] for i, c in enumerate(r.columns)]
    e["kept"] = fingerprint(cat) == fp
    return {"ev": [e]}


def empties():
    out = []
    for cls in (Catalog, ForecastCatalog):
        for f, given in [(lambda: cls(), []), (lambda: cls(None), []), (lambda: cls([]), []), (lambda: cls({}), []), (lambda: cls(pd.DataFrame()), []), (lambda: cls(columns=["magnitude", "a"]), ["magnitude", "a"]),
                         (lambda: cls([], columns=["time", "magnitude"]), ["time", "magnitude"]), (lambda: cls(pd.DataFrame(columns=["magnitude", "x"])), ["magnitude", "x"]), (lambda: cls.from_dict([]), []),
                         (lambda: cls.from_dict([], include_uncertainties=False, include_ids=False), []), (lambda: cls(columns=[]), []), (lambda: cls({"magnitude": [], "time": []}), ["magnitude", "time"]), (lambda: cls(name="x", mc=1.0), []),
                         (lambda: cls.from_quakeml('<q:quakeml xmlns:q="http://quakeml.org/xmlns/quakeml/1.2"></q:quakeml>'), [])]:
            r, err = call(f)
            out.append({"ev": [{"op": "empty", "given": given, "err": err, "rcols": [] if err else [str(c) for c in r.columns], "rows": 0 if err else len(r),
                                "rkind": "" if err else type(r).__name__, "kind": cls.__name__}]})
    return out


def main(run):
    cases = run.model("MCConstruct", cfg(constants={"MaxRows": run.n(3, 4)}, invariants=["CellwiseResult", "RefusedIff", "RowsKept", "NoZoneLeft", "Emit"]),
                      label="time columns, every mixture of kinds of cells")
    items = [{"kinds": c["cells"]} for c in cases]
    if run.thorough:
        items = items + [it for it in items if len(it["kinds"]) == 4] * 2
    else:
        items = items * 3
    K = ["plain", "plain", "zoneA", "zoneB", "early", "earlyzone", "null", "zone", "earlyzone"]
    for _ in range(run.n(600, 6000)):
        n = int(run.rng.integers(1, 9))
        sub = [K[int(i)] for i in run.rng.integers(0, len(K), int(run.rng.integers(1, 4)))]
        items.append({"kinds": [sub[int(i)] for i in run.rng.integers(0, len(sub), n)]})
    items += [{"kinds": None}] * run.n(150, 1500)
    sessions = [s for s in run.pmap(construct, items, 1) if s] + run.pmap(drop, [{}] * run.n(100, 800), 2) + empties()
    run.assumptions += ["a time is compared to the microsecond", "numbers are compared to 1e-9", "the written forms of a cell are ISO 8601 texts, datetime and Timestamp objects, decimal texts and numbers"]
    run.judge("TraceConstruct", sessions)
