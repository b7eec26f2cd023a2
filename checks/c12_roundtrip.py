"""C12 - QuakeML export followed by import."""
import os, tempfile
from datetime import datetime, timedelta
from gen import *
from qml import SUFF
from vh import *

REQ = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
COUNTS = ["associatedphasecount", "usedphasecount", "associatedstationcount", "usedstationcount", "depthphasecount"]
QUAL = COUNTS + ["standarderror", "azimuthalgap", "secondaryazimuthalgap", "maximumdistance", "minimumdistance", "mediandistance"]
UNC = ["_uncertainty", "_lowerUncertainty", "_upperUncertainty", "_confidenceLevel"]
TEXT = ["event_type", "evaluationmode", "magnitude_type"]
IDS = ["eventID", "originID", "magnitudeID"]
TYPENAMES = ["ML", "MLv", "M", "Mw", "Mw_GCMT", "MLhc", "M<w>", "m b", "Mw(mB)", "mß", "M&", "Mw_GCMT_2", "L", "type2", "MLh"]
TEXTS = ["earthquake", "quarry blast", "a < b", "R&D", "\"quoted\"", "it's", "ümlaut – dash", "x>y", "{{ braces }}", "tab\there",
         "not null", "manual", "line\nbreak", "%s {}", "漢字"]


class Cells:
    """numbers <-> cell values, per kind of column"""
    def __init__(self, rng, hist):
        self.rng, self.hist, self.fwd, self.bwd = rng, hist, {}, {}
        self.fresh = {}

    def kind(self, c):
        if c == "time":
            return "time"
        if c in IDS or c.endswith("magnitudeID"):
            return "id"
        if c in TEXT:
            return "text"
        return "count" if c in COUNTS else "num"

    def make(self, kind, t):
        r = self.rng
        if kind == "time":
            base = datetime(int(r.choice([900, 999, 1356, 1600, 1677, 1700, 2021])) if self.hist else int(r.integers(1700, 2200)), 1, 1)
            return base + timedelta(days=int(r.integers(0, 20000)), seconds=int(r.integers(86400)),
                                    microseconds=int(r.choice([0, 1, 500000, 999999, int(r.integers(10**6))])))
        if kind == "id":
            return ["smi:ch.ethz/%d", "id %d & more", "q\"<%d>'", "%d", "ünï/%d"][int(r.integers(5))] % t
        if kind == "text":
            return TEXTS[int(r.integers(len(TEXTS)))] + " %d" % t
        if kind == "count":
            return int(r.integers(0, 500))
        k = int(r.integers(6))
        return [float(r.normal(0, 50)), float(int(r.integers(-90, 90))), float(r.uniform(-1, 1) * 1e-7), float(np.round(r.normal(0, 3), 1)),
                float(r.uniform(0, 1) * 1e9), -0.1][k]

    def __call__(self, c, t):
        k = self.kind(c)
        if (k, t) not in self.fwd:
            while True:
                v = self.make(k, t)
                if v not in self.bwd.setdefault(k, {}):
                    break
            self.fwd[k, t] = v
            self.bwd[k][v] = t
        return self.fwd[k, t]

    def back(self, c, v):
        """0 missing, token, -1 a value that was never written, <= -10 a created identifier"""
        if v is None or v is pd.NaT or (isinstance(v, float) and v != v):
            return 0
        k = self.kind(c)
        b = self.bwd.get(k, {})
        if k == "time":
            return b.get(pd.Timestamp(v).to_pydatetime() if not isinstance(v, datetime) else
                         (v.to_pydatetime() if isinstance(v, pd.Timestamp) else v), -1)
        if k in ("num", "count"):
            try:
                f = float(v)                 # the import reads numbers with an accuracy of about one unit in the last place
                return next((t for x, t in b.items() if abs(x - f) <= 1e-13 * abs(x)), -1)
            except (TypeError, ValueError):
                return -1
        if v in b:
            return b[v]
        if k == "id" and isinstance(v, str) and v.strip() and v.lower() not in ("nan", "none", "null", "nat"):
            return self.fresh.setdefault(v, -10 - len(self.fresh))
        return -1


def realcol(c, tn):
    if c.startswith("magnitude_#"):
        d = c[len("magnitude_#"):]
        t, _, suf = d.partition("_")
        return "magnitude_" + tn[int(t)] + ("_" + suf if suf else "")
    return c


def abscol(c, tn):
    std = set(REQ) | set(IDS) | {"magnitude" + s for s in UNC}
    if c in std or not c.startswith("magnitude_"):
        return c
    for t, name in sorted(tn.items(), key=lambda x: -len(x[1])):
        p = "magnitude_" + name
        if c.startswith(p) and c[len(p):] in SUFF:
            return f"magnitude_#{t}{c[len(p):]}"
    return c


def catalog(cols, rows, tn, cells, rng, extra, cid=None):
    from seismostats import Catalog, ForecastCatalog
    d = {}
    order = [int(i) for i in rng.permutation(len(cols))]
    for j in order:
        c = cols[j]
        if c in TEXT and c == "magnitude_type":
            v = [None if r[j] == 0 else tn[r[j]] for r in rows]
        else:
            v = [None if r[j] == 0 else cells(c, r[j]) for r in rows]
        if c == "time":
            v = pd.Series([pd.NaT if x is None else x for x in v], dtype=object)
            if not any(x is not pd.NaT and x.year < 1700 for x in v):
                v = pd.to_datetime(v)
        elif cells.kind(c) in ("num", "count"):
            v = pd.Series([np.nan if x is None else x for x in v], dtype=float if any(x is None for x in v) or cells.kind(c) == "num" else int)
        else:
            v = pd.Series([np.nan if x is None and rng.random() < .5 else x for x in v], dtype=object)
        d[realcol(c, tn)] = v
    df = pd.DataFrame(d)
    if extra:
        df["weight"] = np.arange(len(df)) * 1.0
        df["my note"] = "x<y"
        if rng.random() < .5:
            df[3] = 1
    if cid is not None:
        df["catalog_id"] = cid
    df.index = [list(range(len(df))), list(range(len(df)))[::-1], [4] * len(df), [f"r{i}" for i in range(len(df))]][int(rng.integers(4))]
    cls = Catalog if cid is None else ForecastCatalog
    return cls(df, mc=1.0, name="c") if cid is None else cls(df)


def imported(text, fl, tn, cells, work, k):
    from seismostats import Catalog
    src = text
    if k % 2:
        src = os.path.join(work, "trip.xml")
        with open(src, "w", encoding="utf-8") as f:
            f.write(text)
    c = Catalog.from_quakeml(src, include_all_magnitudes=fl["all"], include_uncertainties=fl["unc"], include_ids=fl["ids"],
                             include_quality=fl["quality"])
    out = []
    names = {v: t for t, v in tn.items()}
    for i in range(len(c)):
        rec = []
        for j, col in enumerate(c.columns):
            a = abscol(col, tn)
            v = c.iloc[i, j]
            t = (0 if v is None or v != v else names.get(v, -1)) if a == "magnitude_type" else cells.back(a, v)
            if t != 0:
                rec.append([a, t])
        out.append(rec)
    return out


def trip(cols, rows, rng, work, k, cid=None):
    hist = rng.random() < .3
    cells = Cells(rng, hist)
    types = sorted({int(c[len("magnitude_#"):].split("_")[0]) for c in cols if c.startswith("magnitude_#")}
                   | {r[cols.index("magnitude_type")] for r in rows} - {0})
    tn = {t: TYPENAMES[int(i)] for t, i in zip(types, rng.permutation(len(TYPENAMES)))}
    fl = {"all": True, "unc": True, "ids": True, "quality": True} if k % 3 else {f: bool(rng.random() < .6) for f in ("all", "unc", "ids", "quality")}
    cat = catalog(cols, rows, tn, cells, rng, bool(rng.random() < .4), cid)
    fp = fingerprint(cat)
    kw = dict(agencyID="A & B", author="<me>") if k % 4 == 0 else {}

    def go():
        x = cat.to_quakeml(**kw)
        if cid is None:
            return imported(x, fl, tn, cells, work, k)
        return [imported(y, fl, tn, cells, work, k) for y in x]
    out, err = call(go)
    e = {"op": "trip" if cid is None else "forecast", "cols": cols, "rows": rows, "types": types, "fl": fl, "err": err,
         "kept": fingerprint(cat) == fp}
    if cid is None:
        e["out"] = out if not err else []
    else:
        e["outs"] = out if not err else []
        e["cid"] = [int(x) for x in cid]
    return e


def random_case(rng):
    types = [901, 902, 903][: int(rng.integers(0, 4))]
    cols = list(REQ)
    p = rng.random()
    for c in [b + s for b in ("time", "latitude", "longitude", "depth", "magnitude") for s in UNC] + QUAL + TEXT[:2] + IDS:
        if rng.random() < p:
            cols.append(c)
    for t in types:
        for s in SUFF:
            if s == "" or rng.random() < p:
                cols.append(f"magnitude_#{t}{s}")
    n = int(rng.choice([0, 1, 2, 3, 5, 9]))
    miss = rng.choice([0, .05, .3])
    tok, rows = [10], []
    for i in range(n):
        r = []
        for c in cols:
            tok[0] += 1
            if c == "magnitude_type":
                v = int(rng.choice([901, 902, 903, 904]))
            else:
                v = tok[0]
            r.append(0 if rng.random() < miss else v)
        rows.append(r)
    return cols, rows


def main(run):
    rng = run.rng
    A = '<<"latitude", "longitude", "time", "depth", "magnitude", "magnitude_type", "magnitude_#5", "magnitude_#5_magnitudeID", "magnitude_#6", "magnitude_#6_uncertainty", "magnitudeID">>'
    B = '<<"latitude", "longitude", "time", "depth", "magnitude", "magnitude_type", "originID", "usedphasecount", "time_uncertainty">>'
    inv = ["RoundTrip", "Emit"]
    cases = run.model("MCExport", cfg(constants=dict(Columns=A, MaxRows="1"), invariants=inv), label="secondary magnitudes, one row")
    cases += run.model("MCExport", cfg(constants=dict(Columns=B, MaxRows="1"), invariants=inv), label="preferred values, one row")
    C = '<<"latitude", "longitude", "time", "depth", "magnitude", "magnitude_type">>'
    cases += run.model("MCExport", cfg(constants=dict(Columns=C, MaxRows=run.n("2", "3")), invariants=inv), label="several rows")
    pick = [(k, cases[i]) for k, i in enumerate(rng.permutation(len(cases))[: run.n(700, 6000)])]

    def one(kc, rng):
        k, c = kc
        return {"ev": [trip(c["cols"], c["rows"], rng, tempfile.mkdtemp(dir=run.work), k)]}

    def rnd(k, rng):
        cols, rows = random_case(rng)
        cid = rng.choice([0, 1, 3, 10], len(rows)) if k % 5 == 0 and rows else None
        return {"ev": [trip(cols, rows, rng, tempfile.mkdtemp(dir=run.work), k // 5 if k % 5 == 0 else k, cid)]}
    sessions = run.pmap(one, pick, 1) + run.pmap(rnd, range(run.n(700, 6000)), 2)
    run.judge("TraceExport", sessions)
    run.assumptions += ["text has no surrounding white space, no control characters and is no spelling of null",
                        "a secondary magnitude of the preferred type is the preferred magnitude",
                        "a secondary magnitude without value but with other attributes is not judged"]
