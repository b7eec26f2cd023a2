"""C26 - conversion to OpenQuake catalogues and back."""
import datetime
import numpy as np
import pandas as pd
from vh import *

pick = lambda rng, l: l[int(rng.integers(len(l)))]
TF = ["year", "month", "day", "hour", "minute", "second", "microsecond"]
EPOCH = datetime.datetime(1970, 1, 1)
OQ = None


def cell(x):
    if isinstance(x, (bool, np.bool_)):
        return f"b:{bool(x)}"
    if x is None or x is pd.NA or x is pd.NaT or (isinstance(x, (float, np.floating)) and math.isnan(x)):
        return "nan"
    if isinstance(x, (int, float, np.integer, np.floating)):
        return "n:" + float(x).hex()
    if isinstance(x, (pd.Timestamp, np.datetime64, datetime.datetime)):
        return f"t:{pd.Timestamp(x).isoformat()}"
    return f"s:{x!r}"


class Tok(dict):
    def col(self, values):
        return [self.setdefault(cell(v), len(self) + 1) for v in values]


def parts(dt):
    """datetime -> <<day, second, microsecond>>"""
    d = dt - EPOCH
    return [d.days, d.seconds, d.microseconds]


def times_of(s):
    """column of timestamps -> <<day, second, microsecond>> per event"""
    out = []
    for v in np.asarray(s):
        try:
            v = np.datetime64(v, "us") if not isinstance(v, pd.Timestamp) else v.to_datetime64().astype("datetime64[us]")
            out.append([NOTINT, 0, 0] if np.isnat(v) else (lambda k: [k // 86400_000_000, k // 1000_000 % 86400, k % 1000_000])(int(v.astype("int64"))))
        except Exception:
            out.append([NOTINT, 1, 0])
    return out


def table(cat, tok):
    return [{"n": str(c), "v": tok.col(list(cat[c]))} for c in cat.columns if c != "time"]


def image(cat, tok):
    return [tok.col(list(cat.index))] + [[str(c), str(cat[c].dtype), tok.col(list(cat[c]))] for c in cat.columns]


def oimage(oq, tok):
    return [[str(k), type(v).__name__, tok.col(list(v))] for k, v in oq.data.items()]


def fields_of(oq):
    d = oq.data
    n = len(d["magnitude"])
    try:
        if any(len(d[k]) != n for k in TF[:6]):
            return [[NOTINT] * 6] * n
        out = []
        for i in range(n):
            s = float(d["second"][i]) * 1e6
            out.append([small_int(d[k][i]) for k in TF[:5]] + [int(round(s)) if math.isfinite(s) and abs(s) < 1e9 else NOTINT])
        return out
    except Exception:
        return [[NOTINT - 2] * 6] * n


def kept_of(cat):
    """time fields kept as columns: in rows of six fields, as they are named with and without the column microsecond"""
    n, out = len(cat), []
    try:
        us = cat["microsecond"] if "microsecond" in cat.columns else [0] * n
        for with_us in (0, 1):
            rows = []
            for i in range(n):
                s = float(list(cat["second"])[i]) * 1e6 + with_us * float(list(us)[i])
                rows.append([small_int(list(cat[k])[i]) for k in TF[:5]] + [int(round(s)) if math.isfinite(s) and abs(s) < 1e9 else NOTINT])
            out.append(rows)
        return out
    except Exception:
        return [[[NOTINT] * 6] * n] * 2


def moments(rng, dates, n, era):
    out = []
    for _ in range(n):
        e = era if rng.random() < .8 else pick(rng, ["new", "old", "edge", "any"])
        if e == "case" and dates:
            c = pick(rng, dates)
            d = datetime.datetime(min(max(c["y"], 1), 9998), c["m"], c["d"])
        else:
            lo, hi = {"new": (1950, 2030), "old": (1000, 1700), "edge": (1, 1000), "any": (1, 9998), "case": (1678, 2261)}[e]
            d = datetime.datetime(int(rng.integers(lo, hi)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
        s = pick(rng, [0, 1, 59, 3599, 3600, 43199, 43200, 86399, int(rng.integers(86400))])
        us = pick(rng, [0, 0, 1, 999999, 999500, 500000, 999, 1000, int(rng.integers(10 ** 6)), int(rng.integers(1000)) * 1000])
        out.append(pick(rng, out) if out and rng.random() < .15 else d + datetime.timedelta(seconds=s, microseconds=us))
    return out


def column(rng, n):
    k = int(rng.integers(9))
    return [lambda: rng.normal(size=n), lambda: rng.integers(0, 5, n), lambda: np.where(rng.random(n) < .4, np.nan, 1.5), lambda: rng.random(n) < .5,
            lambda: np.array([pick(rng, ["a", "b c", "", "1", "x,y"]) for _ in range(n)], dtype=object), lambda: np.array([pick(rng, ["a", None]) for _ in range(n)], dtype=object),
            lambda: pd.array([pick(rng, [1, 2, None]) for _ in range(n)], dtype="Int64"), lambda: pd.Categorical([pick(rng, ["u", "v"]) for _ in range(n)]),
            lambda: np.array([np.datetime64("2001-01-01") + int(rng.integers(9)) for _ in range(n)], dtype="datetime64[ns]")][k]()


def start_cat(rng, dts):
    from seismostats import Catalog, ForecastCatalog
    n = len(dts)
    fits = all(datetime.datetime(1678, 1, 1) < t < datetime.datetime(2262, 1, 1) for t in dts)
    tm = np.array(dts, dtype="datetime64[us]")
    if fits and rng.random() < .8:
        tm = tm.astype("datetime64[ns]")
    cols = {"longitude": rng.uniform(-180, 180, n), "latitude": rng.uniform(-90, 90, n), "depth": np.where(rng.random(n) < .2, np.nan, rng.uniform(0, 99, n)), "time": tm,
            "magnitude": np.where(rng.random(n) < .15, np.nan, rng.uniform(-1, 9, n))}
    if rng.random() < .3:
        cols["magnitude"] = rng.integers(0, 9, n)
    for c in ["event_type", "magnitude_type", "sigmaMagnitude", "depthError", "comment", "Agency", "flag", "x y", "magnitude_ML", "event_id"]:
        if rng.random() < .2:
            cols[c] = column(rng, n)
    if rng.random() < .3:
        cols["eventID"] = np.array([f"ev{int(i)}" for i in rng.permutation(n)], dtype=object) if rng.random() < .7 else rng.permutation(n) + 5
    fc = rng.random() < .15
    if fc:
        cols["catalog_id"] = rng.integers(0, 3, n)
    names = list(cols)
    if rng.random() < .5:
        names = [names[int(i)] for i in rng.permutation(len(names))]
    idx = pick(rng, [np.arange(n), np.arange(n)[::-1], np.zeros(n, int), np.arange(n) + 4])
    df = pd.DataFrame({c: cols[c] for c in names}).set_axis(idx, axis=0)
    return (ForecastCatalog if fc else Catalog)(df)


def start_oq(rng, dts):
    n = len(dts)
    d = {"longitude": rng.uniform(-180, 180, n), "latitude": rng.uniform(-90, 90, n), "depth": np.where(rng.random(n) < .2, np.nan, rng.uniform(0, 99, n)),
         "year": np.array([t.year for t in dts], int), "month": np.array([t.month for t in dts], int), "day": np.array([t.day for t in dts], int),
         "hour": np.array([t.hour for t in dts], int), "minute": np.array([t.minute for t in dts], int),
         "second": np.array([t.second + t.microsecond / 1e6 for t in dts], float), "magnitude": rng.uniform(-1, 9, n)}
    if rng.random() < .15 and n:            # rounds up to the next minute
        i = int(rng.integers(n))
        d["second"][i] = pick(rng, [59.9999999, 59.99999951])
        dts[i] = dts[i].replace(second=0, microsecond=0) + datetime.timedelta(minutes=1)
    if rng.random() < .8:
        d["eventID"] = [f"ev{int(i)}" for i in rng.permutation(n)]
    for c, v in (("flag", lambda: rng.integers(0, 2, n)), ("sigmaMagnitude", lambda: np.where(rng.random(n) < .3, np.nan, .2)), ("comment", lambda: ["c"] * n), ("Agency", lambda: ["A", "B"] * n), ("magnitudeType", lambda: ["ML"] * n)):
        if rng.random() < .3:
            d[c] = v()[:n]
        elif rng.random() < .3:
            d[c] = [] if c in ("comment", "Agency", "magnitudeType") else np.array([])
    names = list(d)
    if rng.random() < .5:
        names = [names[int(i)] for i in rng.permutation(len(names))]
    return OQ.make_from_dict({k: d[k] for k in names})


def session(item, rng):
    kind, hist, dates = item
    from seismostats import Catalog, ForecastCatalog
    tok, ev = Tok(), []
    cur, form, back = None, None, False
    dts = []
    for s in hist:
        if s.startswith("start") or cur is None:
            n = 0 if s == "startE" else int(rng.integers(1, 6))
            dts = moments(rng, dates, n, {"startA": "new", "startB": "old", "startC": "edge"}.get(s, "case"))
            if n == 0:
                cur = pick(rng, [lambda: Catalog(), lambda: start_cat(rng, [datetime.datetime(2000, 1, 1)]).iloc[:0]])()
                form = "cat"
            elif kind == "oq":
                cur, form = start_oq(rng, dts), "oq"
                ev.append({"k": "start", "times": [parts(t) for t in dts], "cols": [{"n": k, "v": tok.col(list(v))} for k, v in cur.data.items() if k not in TF and len(v) > 0]})
                continue
            else:
                cur, form = start_cat(rng, dts), "cat"
            ev.append({"k": "start", "times": times_of(cur["time"]) if n else [], "cols": table(cur, tok) if n else []})
            if s.startswith("start"):
                continue
        if s == "to":
            if form != "cat":
                continue
            before = image(cur, tok)
            r, err = call(cur.to_openquake)
            e = {"k": "to", "err": err, "same": image(cur, tok) == before, "n": 0, "cols": [], "fields": []}
            if not err and not hasattr(r, "data"):
                e["err"] = err = "no catalogue"
            if not err:
                e["n"] = len(r.data["magnitude"])
                e["fields"] = fields_of(r)
                e["cols"] = [{"n": str(k), "v": tok.col(list(v))} for k, v in r.data.items() if len(v) > 0]
            ev.append(e)
            if err:
                return {"ev": ev}
            cur, form = r, "oq"
        else:
            if form != "oq":
                continue
            before = oimage(cur, tok)
            keep = bool(rng.random() < .25)
            has = "catalog_id" in cur.data and len(cur.data["catalog_id"]) > 0
            src = fields_of(cur)
            given = [{"n": str(k), "v": tok.col(list(v))} for k, v in cur.data.items() if k not in TF + ["time"] and len(v) > 0]
            r, err = call((ForecastCatalog if has and rng.random() < .5 else Catalog).from_openquake, cur, *pick(rng, [(), (False,)] if not keep else [(True,)]))
            e = {"k": "from", "err": err, "same": oimage(cur, tok) == before, "n": 0, "cols": [], "times": [], "src": src, "given": given, "keep": keep and len(src) > 0, "kept": [], "back": len(src) > 0}
            if not err and not (hasattr(r, "columns") and "time" in r.columns):
                e["err"] = err = "no catalogue"
            if not err:
                e["n"] = len(r)
                if len(r):
                    e["times"], e["cols"] = times_of(r["time"]), table(r, tok)
                    if keep:
                        e["kept"] = kept_of(r)
            ev.append(e)
            if err or keep:
                return {"ev": ev}
            cur, form = r, "cat"
    return {"ev": ev}


def main(run):
    global OQ
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import seismostats  # noqa
    from openquake.hmtk.seismicity.catalogue import Catalogue
    OQ = Catalogue
    starts = "{1, 96, 196, 396, 996, 1580, 1676, 1896, 1966, 1996, 2096, 2258, 9992}" if not run.thorough else "{1, 401, 801, 1201, 1601, 2001, 2401, 5197, 9597}"
    dates = run.model("MCOpenQuake", cfg(constants={"Starts": starts, "Years": str(run.n(7, 400))}, invariants=["NumberIsCount", "CivilIsDate", "RoundTrip", "Carries", "Emit"]), label="calendar")
    faults = ["none", "month and day swapped", "fraction dropped", "fraction rounded", "hour of twelve", "identifiers replaced", "identifiers repeated", "no identifiers", "early fractions dropped",
              "three digit years", "before 1970", "rows without magnitude dropped", "sorted by time", "empty fails"]
    master = ["startA", "to", "from", "to", "startB", "to", "from", "to", "from", "startC", "to", "from", "startE", "to"]
    cases = run.model("MCConvert", cfg(constants={"Faults": "{" + ",".join(f'"{f}"' for f in faults) + "}", "MaxSteps": str(run.n(5, 7)), "Master": "<<" + ",".join(f'"{s}"' for s in master) + ">>"},
                                       invariants=["NoFalseAlarm", "MasterShowsAll", "Emit"]))
    hs = sorted({tuple(c["h"]) for c in cases}) or [tuple(master)]
    rng = run.rng
    dates = [c for c in dates if 1 <= c["y"] <= 9998]
    items = [("cat", master, dates) for _ in range(run.n(400, 8000))] + [("oq", ["from", "to", "from", "to"], dates) for _ in range(run.n(300, 6000))]
    items += [(pick(rng, ["cat", "oq"]), list(pick(rng, hs)), dates) for _ in range(run.n(300, 6000))]
    items += [("cat", ["to", "from"], dates) for _ in range(run.n(300, 6000))]
    run.judge("TraceOpenQuake", run.pmap(session, items))
    run.assumptions += ["every event has a time, of at most microsecond resolution, in the years 1 to 9998", "no column of the catalogue is called like a date or time field of OpenQuake"]
