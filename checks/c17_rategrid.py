"""C17 - rate grids: time index, cell ids, concatenation, selection, statistics."""
import copy, pickle
import numpy as np
import pandas as pd
from vh import *
from c14_dataframe import ftoken, token, cell as cellrepr

B = ["longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max"]
# bounds of the cells used; 6, 7 and 8 are unbounded in depth and partly equal in the other bounds
CELLS = {1: (0, 1, 0, 1, 0, 10), 2: (1, 2, 0, 1, 0, 10), 3: (0, 1, 1, 2, 0, 10), 4: (0, 1, 0, 1, 10, 20), 5: (-1, 0, 0, 1, 0, 10),
         6: (0, 1, 0, 1, np.nan, np.nan), 7: (1, 2, 0, 1, np.nan, np.nan), 8: (0, 1, 0, 1, 0, np.nan), 9: (-.5, .5, 0, 1.25, 0, 10), 10: (0, 1.25, 0, 1, 0, 10)}
T0 = pd.Timestamp("2020-01-01")
UNSET, NOLEVEL, ABSENT = -9, -8, -7
ATTRS = ["name", "starttime", "endtime", "n_grids"]


def day(t):
    if t is None or t is pd.NaT:
        return UNSET
    try:
        d = (pd.Timestamp(t) - T0) / pd.Timedelta(hours=6)
        return int(d) if d == int(d) else -99
    except Exception:
        return -98


def ts(d):
    return None if d == UNSET else T0 + pd.Timedelta(hours=6 * int(d))


def key(v):
    try:
        f = float(v)
        return "nan" if f != f else repr(f + 0.0)
    except (TypeError, ValueError):
        return "nan" if v is None or v is pd.NaT or v is pd.NA else repr(v)


# single-table operations: selecting, copying and transforming
OPS = {
 'copy': lambda c: c.copy(), 'shallow': lambda c: c.copy(deep=False), 'head': lambda c: c.head(2), 'tail': lambda c: c.tail(2), 'slice': lambda c: c[1:], 'rev': lambda c: c.iloc[::-1], 'bool': lambda c: c[c.a > 0],
 'iloc': lambda c: c.iloc[[-1, 0]], 'locbool': lambda c: c.loc[(c.a > 0).values], 'sort': lambda c: c.sort_values('a'), 'sortdesc': lambda c: c.sort_values(['b', 'a'], ascending=False, kind='stable'), 'sort_index': lambda c: c.sort_index(ascending=False, kind='stable'),
 'query': lambda c: c.query('a > 0'), 'nlargest': lambda c: c.nlargest(2, 'a'), 'sample': lambda c: c.sample(2, random_state=3), 'sampleall': lambda c: c.sample(frac=1, random_state=1), 'dups': lambda c: c.drop_duplicates('b'), 'dropna': lambda c: c.dropna(subset=['a', 'b']),
 'take': lambda c: c.take([len(c) - 1]), 'empty': lambda c: c.iloc[:0], 'filt': lambda c: c.groupby('b').filter(lambda g: len(g) > 1), 'gbhead': lambda c: c.groupby('b').head(1), 'gbtail': lambda c: c.groupby('b').tail(1), 'gbnth': lambda c: c.groupby('b').nth(0),
 'gbiter': lambda c: [g for _, g in c.groupby('b')][-1], 'getgroup': lambda c: c.groupby('b').get_group(c.b.iloc[0]), 'deepcopy': lambda c: copy.deepcopy(c), 'pickle': lambda c: pickle.loads(pickle.dumps(c)), 'pipe': lambda c: c.pipe(lambda x: x.iloc[1:]),
 'assign': lambda c: c.assign(w=1), 'insert': lambda c: (lambda d: (d.insert(0, 'q', 7), d)[1])(c.copy()), 'colrev': lambda c: c[list(c.columns)[::-1]], 'colslice': lambda c: c.loc[:, :], 'astype': lambda c: c.astype({'a': float}), 'concat_one': lambda c: pd.concat([c]), 'concat_self': lambda c: pd.concat([c.iloc[1:], c.iloc[:2]]),
 'newcol': lambda c: pd.concat([c, pd.Series(range(len(c)), index=c.index, name='w')], axis=1), 'align': lambda c: c.align(c.iloc[:2], axis=1)[0], 'truncate': lambda c: c[(c.a >= c.a.min()).values], 'isin': lambda c: c[c.b.isin([1, 2])], 'combine': lambda c: c[~c.duplicated('b')],
 'infer': lambda c: c.infer_objects(), 'convert': lambda c: c.convert_dtypes(), 'rename_axis0': lambda c: c.rename_axis(columns='k'), 'drop_label': lambda c: c.drop(index=c.index[0]), 'evalcol': lambda c: c.eval('y = a * 2'), 'mapid': lambda c: c.map(lambda x: x),
 'apply1': lambda c: c.apply(lambda r: r, axis=1), 'apply0': lambda c: c.apply(lambda s: s), 'transform': lambda c: c.transform(lambda x: x), 'setvals': lambda c: (lambda d: (d.__setitem__('a', 9), d)[1])(c.copy()), 'locset': lambda c: (lambda d: (d.iloc.__setitem__((0, 6), 5), d)[1])(c.copy()),
}
TIMED = {
 'xs': lambda c: c.xs(c.index.get_level_values('cell_id')[0], level='cell_id', drop_level=False), 'xsdrop': lambda c: c.xs(c.index.get_level_values('cell_id')[0], level='cell_id'), 'first_period': lambda c: c.loc[[c.index[0][0]]], 'period': lambda c: c.xs(c.index[-1][0], level='starttime'),
 'by_id': lambda c: c[c.index.get_level_values('cell_id') == 1], 'droplevel': lambda c: c.droplevel('starttime'), 'swap': lambda c: c.swaplevel(0, -1), 'reorder': lambda c: c.reorder_levels(list(c.index.names)[::-1]), 'lvlsort': lambda c: c.sort_index(level='cell_id', kind='stable'),
 'gblevel': lambda c: c.groupby(level='cell_id').head(1), 'gbperiod': lambda c: c.groupby(level='starttime').tail(2), 'unstack': lambda c: c[~c.index.duplicated()], 'resetlvl': lambda c: c.reset_index(level='starttime'), 'lookup': lambda c: c.loc[c.index[0]] if c.index.is_unique else c.iloc[[0]],
}
VALUE = {
 'where': lambda c: c.where(c.a > 0), 'mask': lambda c: c.mask(c.b > 1), 'isna': lambda c: c.isna(), 'notna': lambda c: c.notna(), 'fillna': lambda c: c.fillna(0), 'round': lambda c: c.round(0), 'replace': lambda c: c.replace({1: 3}), 'shift': lambda c: c.shift(1), 'abs': lambda c: c.abs(), 'add': lambda c: c + 1,
 'neg': lambda c: -c, 'gt': lambda c: c > 1, 'eq': lambda c: c == c, 'clip': lambda c: c.clip(0, 2), 'ffill': lambda c: c.ffill(), 'rank': lambda c: c.rank(), 'reset': lambda c: c.reset_index(), 'resetdrop': lambda c: c.reset_index(drop=True), 'setidx': lambda c: c.set_index('b', append=True, drop=False), 'cumsum': lambda c: c.cumsum(),
 'merge': lambda c: c.merge(pd.DataFrame({'b': [1, 2], 'w': [5, 6]}), on='b'), 'mergeleft': lambda c: c.merge(pd.DataFrame({'b': [1, 2], 'w': [5, 6]}), how='left'), 'join': lambda c: c.join(pd.Series([1, 2], name='w'), on='b'), 'noa': lambda c: c.drop(columns='a'), 'nob': lambda c: c[[x for x in c.columns if x != 'b']],
 'nodepth': lambda c: c.loc[:, [x for x in c.columns if not x.startswith('depth')]], 'noid': lambda c: c.drop(columns='grid_id', errors='ignore'), 'withid': lambda c: c.join(pd.DataFrame({'grid_id': 3}, index=c.index.unique()), rsuffix='_r') if 'grid_id' not in c else c.copy(), 'T': lambda c: c.T, 'melt': lambda c: c.melt(id_vars=['a']), 'stack': lambda c: c.stack(),
 'series': lambda c: c['a'], 'sum': lambda c: c.sum(numeric_only=True), 'rowapply': lambda c: c.apply(lambda r: r.a, axis=1), 'repr': lambda c: repr(c), 'csv': lambda c: c.to_csv(), 'dict': lambda c: c.reset_index().to_dict('list'), 'values': lambda c: c[['a', 'b']].values, 'gbsize': lambda c: c.groupby('b').size(), 'equals': lambda c: c.equals(c),
 'some': lambda c: c[['a', 'b']], 'num': lambda c: c.select_dtypes('number'), 'keys': lambda c: pd.concat({'x': c, 'y': c.iloc[:1]}), 'ignore': lambda c: pd.concat([c, c], ignore_index=True), 'reidx': lambda c: c.reindex(columns=list(c.columns) + ['zz']), 'strs': lambda c: c.astype(str), 'axis1': lambda c: pd.concat([c, c.rename(columns=lambda x: x + '_2')], axis=1),
}
STATS = {"mean": "mean", "sum": "sum", "min": "min", "max": "max", "count": "count", "median": "median", "var": "var", "first": "first", "last": "last", "nunique": "nunique",
         "range": lambda x: x.max() - x.min(), "size": lambda x: len(x)}
CALLABLE = {"mean": lambda x: x.mean(), "sum": np.sum, "max": lambda x: x.max(), "var": lambda x: x.var(), "median": lambda x: x.median()}


class H:
    def __init__(self, rng):
        self.rng, self.pool, self.ev = rng, [], []
        self.src = []                   # usable as operand of grid operations

    def canon(self, vals):
        k = tuple(key(v) for v in vals)
        for c, b in CELLS.items():
            if tuple(key(float(v)) for v in b) == k:
                return c
        return token(repr(k)) % 10**6 + 1000

    def look(self, o):
        k = {"GRRateGrid": "grid", "ForecastGRRateGrid": "forecast", "DataFrame": "plain"}.get(type(o).__name__, "other")
        d = o.__dict__
        attrs = {}
        for a in ATTRS:
            if a not in d:
                attrs[a] = ABSENT
            else:
                v = getattr(o, a)
                attrs[a] = day(v) if a in ("starttime", "endtime") else UNSET if v is None else (token("n" + str(v)) if a == "name" else small_int(v))
        p = pd.DataFrame(o)
        names = list(p.index.names)
        mode = "period" if names == ["starttime", "endtime", "cell_id"] else "start" if names == ["starttime", "cell_id"] else "none" if p.index.nlevels == 1 else "other"
        rows = []
        if p.columns.is_unique and set(B) <= set(p.columns):
            bv = [p[b].tolist() for b in B]
            cols = [(str(c), p[c].tolist()) for c in p.columns]
            lv = {n: p.index.get_level_values(n).tolist() for n in names if n in ("starttime", "endtime", "cell_id")}
            for i in range(len(p)):
                rows.append({"cell": self.canon([b[i] for b in bv]), "s": day(lv["starttime"][i]) if "starttime" in lv else NOLEVEL, "e": day(lv["endtime"][i]) if "endtime" in lv else NOLEVEL,
                             "id": key(lv["cell_id"][i]) if "cell_id" in lv else "none",
                             "data": token(repr(sorted((n, key(v[i])) for n, v in cols if key(v[i]) != "nan")))})
        return {"kind": k, "cols": [str(c) for c in o.columns], "attrs": attrs, "mode": mode, "rows": rows, "data": ftoken(p)}

    def rec(self, **e):
        e["after"] = [self.look(o) for o in self.pool]
        self.ev.append(e)

    def new(self, kind, cells, start, end, name=None, n=None, index=None, plain=None):
        from seismostats import GRRateGrid, ForecastGRRateGrid
        r = self.rng
        k = len(cells)
        d = {b: [float(CELLS[c][i]) for c in cells] for i, b in enumerate(B)}
        if r.random() < .2 and all(v != v for v in d["depth_min"]):
            d["depth_min"] = [None] * k
        miss = r.random() < .3
        d |= {"a": [float(x) for x in r.integers(-3, 9, k)], "b": [int(x) for x in r.integers(0, 4, k)], "mc": [float("nan") if miss and r.random() < .4 else float(x) for x in r.integers(0, 4, k)]}
        if r.random() < .5:
            d["number_events"] = [int(x) for x in r.integers(0, 20, k)]
        if r.random() < .3:
            d["alpha"] = [float("nan") if r.random() < .4 else float(x) for x in r.integers(0, 5, k)]
        if r.random() < .3:
            d["note"] = [["x", "y"][int(x)] for x in r.integers(0, 2, k)]
        if r.random() < .2:
            d["w"] = [float(x) for x in r.integers(0, 9, k)]
        kw = dict(starttime=ts(start), endtime=ts(end), name=name)
        if r.random() < .2:
            kw = {a: (v if v is None or a == "name" else v.isoformat()) for a, v in kw.items()}
        if index is not None:
            kw["index"] = index
        if kind == "forecast":
            d["grid_id"] = [int(x) for x in r.integers(0, 3, k)]
            if n is not None:
                kw["n_grids"] = n
        o, err = call(ForecastGRRateGrid if kind == "forecast" else GRRateGrid, d, **kw)
        h0 = H(r)
        h0.pool = []
        rows = h0.look(pd.DataFrame(d, index=index))["rows"]
        if not err:
            self.pool.append(o)
            self.src.append(True)
        self.rec(op="new", kind=kind, err=err, rows=rows, attrs={"name": UNSET if name is None else token("n" + str(name)), "starttime": start, "endtime": end,
                                                                 "n_grids": ABSENT if kind == "grid" else UNSET if n is None else n})

    def missing(self, srcs):            # an earlier step failed, which is judged
        return max(srcs) >= len(self.pool)

    def add(self, got, ok):
        if any(got is o for o in self.pool):
            got = got.copy()
        self.pool.append(got)
        self.src.append(ok)

    def index(self, s, withend, default=False):
        if self.missing([s]):
            return
        o, err = call(lambda: self.pool[s].add_time_index() if default and withend else self.pool[s].add_time_index(endtime=withend))
        if not err:
            self.add(o, True)
        self.rec(op="index", src=s + 1, withend=withend, err=err)

    def concat(self, srcs):
        if self.missing(srcs):
            return
        from seismostats import GRRateGrid, ForecastGRRateGrid
        kinds = {type(self.pool[s]).__name__ for s in srcs}
        cls = ForecastGRRateGrid if kinds == {"ForecastGRRateGrid"} else GRRateGrid
        o, err = call(cls.concat, [self.pool[s] for s in srcs])
        if not err:
            self.add(o, cls is GRRateGrid or True)
        self.rec(op="concat", srcs=[s + 1 for s in srcs], cls="forecast" if cls is ForecastGRRateGrid else "grid", err=err)

    def pdconcat(self, srcs):
        if self.missing(srcs):
            return
        o, err = call(pd.concat, [self.pool[s] for s in srcs], axis=0)
        if not err:
            self.add(o, True)
        self.rec(op="pdconcat", srcs=[s + 1 for s in srcs], err=err)

    def derive(self, name, f, s, ok):
        if self.missing([s]):
            return
        o = self.pool[s]
        want, perr = call(f, pd.DataFrame(o, copy=True))
        got, err = call(f, o)
        e = dict(op="derive", what=name, src=s + 1, err=err, perr=perr, rkind="other", rdata=0, pdata=0)
        if not perr:
            e["pdata"] = ftoken(want)
        if not err:
            if isinstance(got, pd.DataFrame):
                e["rkind"] = self.look(got)["kind"]
                self.add(got, ok and self.look(got)["mode"] != "other" and len(got) > 0)
            e["rdata"] = ftoken(pd.DataFrame(got) if isinstance(got, pd.DataFrame) else got)
        self.rec(**e)

    def set(self, s, a):
        if self.missing([s]):
            return
        r = self.rng
        v = {"name": f"m{int(r.integers(99))}", "starttime": int(r.integers(0, 9)), "endtime": int(r.integers(9, 20)), "n_grids": int(r.integers(1, 9))}[a]
        if a in ("endtime", "starttime", "n_grids") and r.random() < .3:
            v = UNSET
        setattr(self.pool[s], a, ts(v) if a.endswith("time") else None if v == UNSET else v)
        self.rec(op="set", src=s + 1, attr=a, value=token("n" + v) if a == "name" else v)

    def strip(self, s, inplace):
        if self.missing([s]):
            return
        o = self.pool[s]
        std = B + ["a", "b", "mc"] + (["grid_id"] if type(o).__name__.startswith("Forecast") else [])
        p = pd.DataFrame(o, copy=True)
        p = p[[c for c in p.columns if c in std]]
        got, err = call(o.strip, inplace=inplace)
        if not err and not inplace:
            self.add(got, True)
        self.rec(op="strip", src=s + 1, inplace=inplace, err=err, pdata=ftoken(p))

    def stats(self, s, agg, extra, ascall=False):
        if self.missing([s]):
            return
        o = self.pool[s]
        p = pd.DataFrame(o)
        num = [c for c in p.columns if c in ("a", "b", "mc", "number_events", "alpha", "w")]
        vals = {c: [units(x, 1.0) for x in pd.to_numeric(p[c]).tolist()] for c in num}
        f = CALLABLE.get(agg) if ascall and agg in CALLABLE else STATS[agg]
        args = (f, {k: STATS[v] for k, v in extra.items()}) if extra else (f,) if agg != "mean" or self.rng.random() < .5 else ()
        t, err = call(o.calculate_statistics, *args)
        e = dict(op="stats", src=s + 1, agg=agg, extra={"_": "none"} if not extra else extra, vals=vals, err=err, table=[], tcols=[])
        if not extra:
            e["extra"] = {}
        if not err:
            seen = self.look(t)
            tp = pd.DataFrame(t)
            e["tcols"] = [str(c) for c in tp.columns]
            for i, r in enumerate(seen["rows"]):
                e["table"].append(dict(r, vals={str(c): rat(v) if isinstance(v, (int, float, np.number)) else BAD for c, v in ((c, tp[c].iloc[i]) for c in tp.columns if c not in B)}))
        self.rec(**e)


def main(run):
    base = {"MaxGrids": 2, "MaxRows": 2, "Cells": "{1, 2, 6}", "Modes": '{"none", "start", "period"}'}
    inv = ["RowsKept", "IdsIdentify", "SelectionKeepsIds", "SpanCovers", "StatsByGroup"]
    cases = run.model("MCRateGrid", cfg(constants=base, invariants=inv + ["Emit"]), "two grids, all layouts, periods and index kinds")
    run.model("MCRateGrid", cfg(constants={"MaxGrids": 1, "MaxRows": run.n(4, 5), "Cells": "{1, 2, 6}", "Modes": '{"none", "start", "period"}'}, invariants=inv), "one grid with more rows")
    if run.thorough:
        run.model("MCRateGrid", cfg(constants={"MaxGrids": 3, "MaxRows": 1, "Cells": "{1, 2}", "Modes": '{"none", "start", "period"}'}, invariants=inv), "three grids")
    pick = lambda rng, l: l[int(rng.integers(len(l)))]
    keep = cases if run.thorough else cases[:: max(1, len(cases) // 800)]

    def layout(c, rng):
        h = H(rng)
        idx = []
        for mode, s, e, cells in c:
            h.new(pick(rng, ["grid", "forecast"]) if len(c) == 1 else ["grid", "forecast"][len(str(c)) % 2], cells, s, e, name=pick(rng, [None, "x"]), n=2)
            k = len(h.pool) - 1
            if h.ev[-1]["err"]:
                return {"ev": h.ev}
            if mode != "none":
                h.index(k, mode == "period")
                k = len(h.pool) - 1
            idx.append(k)
        h.concat(idx)
        k = len(h.pool) - 1
        if k not in idx:
            name = pick(rng, list(OPS) + list(TIMED))
            h.derive(name, (OPS | TIMED)[name], k, True)
            if type(h.pool[k]).__name__ == "ForecastGRRateGrid":
                h.stats(k, pick(rng, list(STATS)), {})
        return {"ev": h.ev}
    sessions = run.pmap(layout, keep, 1)

    def single(item, rng):
        name, f, timed = item
        h = H(rng)
        kind = pick(rng, ["grid", "forecast"])
        cells = [int(x) for x in rng.choice([1, 2, 3, 6, 7], int(rng.integers(3, 6)))]
        h.new(kind, cells, 0, 4, name="x", n=3 if kind == "forecast" else None)
        s = 0
        if timed:
            h.index(0, timed == 2)
            h.new(kind, cells[::-1], 4, 8)
            h.index(2, timed == 2)
            h.concat([1, 3])
            s = 4
            if rng.random() < .5:
                h.set(s, "name")
            if kind == "forecast" and rng.random() < .5:
                h.set(s, "n_grids")
        h.derive(name, f, s, True)
        if rng.random() < .5 and name not in VALUE and isinstance(h.pool[-1], pd.DataFrame):   # those may overwrite bounds
            k = len(h.pool) - 1
            if len(h.pool[k]) > 2 and {"a", "b"} <= set(h.pool[k].columns):
                nm = pick(rng, list(OPS))
                h.derive(nm, OPS[nm], k, True)
        return {"ev": h.ev}
    singles = [(n, f, t) for t in (0, 1, 2) for d in ((OPS, VALUE, TIMED) if t else (OPS, VALUE)) for n, f in d.items() for _ in range(run.n(1, 12))]
    sessions += run.pmap(single, singles, 2)

    def joined(k, rng):
        """indexed grids of other cells, or rows of them, whose ids were given independently"""
        h = H(rng)
        kind = pick(rng, ["grid", "forecast"])
        own = [int(x) for x in rng.permutation(list(CELLS))]
        mode = bool(rng.integers(2))
        at, idx = 0, []
        for g in range(int(rng.integers(2, 4))):
            n = int(rng.integers(1, 4))
            cells = own[at:at + n] if rng.random() < .6 else [pick(rng, own[:4]) for _ in range(n)]
            at += n
            cells = cells or own[:1]
            h.new(kind, cells, 2 * g, 2 * g + 2)
            if h.ev[-1]["err"]:
                return {"ev": h.ev}
            k = len(h.pool) - 1
            h.index(k, mode)
            k = len(h.pool) - 1
            if len(cells) > 1 and rng.random() < .5:
                nm = pick(rng, ["tail", "slice", "take", "head", "rev", "bool", "sampleall", "drop_label", "iloc"])
                h.derive(nm, OPS[nm], k, True)
                k = len(h.pool) - 1
            if isinstance(h.pool[k], pd.DataFrame) and len(h.pool[k]) and type(h.pool[k]).__name__ != "DataFrame":
                idx.append(k)
        if idx:
            (h.pdconcat if rng.random() < .7 else h.concat)(idx)
        return {"ev": h.ev}
    sessions += run.pmap(joined, range(run.n(150, 2500)), 4)

    def wander(k, rng):
        h = H(rng)
        grids = lambda: [i for i, o in enumerate(h.pool) if h.src[i] and type(o).__name__ != "DataFrame" and len(o) and o.columns.is_unique]
        pool = [int(x) for x in rng.choice(list(CELLS), int(rng.integers(1, 5)), replace=False)]
        kinds = pick(rng, [["grid"], ["forecast"], ["grid", "forecast"]])
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(1, 7))
            s = int(rng.integers(0, 8))
            e = s + int(rng.integers(1, 6))
            cells = [pick(rng, pool) for _ in range(n)]
            index = None if rng.random() < .6 else [int(x) for x in rng.permutation(20)[:n]] if rng.random() < .6 else [0] * n
            h.new(pick(rng, kinds), cells, UNSET if rng.random() < .05 else s, UNSET if rng.random() < .15 else e, name=pick(rng, [None, "", "x"]), n=int(rng.integers(1, 5)) if rng.random() < .7 else None, index=index)
        for _ in range(int(rng.integers(2, 9))):
            if len(h.pool) > 9:
                break
            g = grids()
            if not g:
                break
            s = pick(rng, g)
            o = h.pool[s]
            mode = h.look(o)["mode"]
            r = rng.random()
            if r < .2 and mode == "none":
                h.index(s, bool(rng.random() < .7), bool(rng.random() < .5))
            elif r < .4:
                same = [i for i in g if h.look(h.pool[i])["mode"] == mode] if rng.random() < .9 else g
                srcs = [pick(rng, same) for _ in range(int(rng.integers(1, 4)))]
                if all(h.look(h.pool[i])["mode"] != "other" for i in srcs):
                    h.concat(srcs)
            elif r < .5:
                same = [i for i in g if h.look(h.pool[i])["mode"] == mode]
                h.pdconcat([pick(rng, same) for _ in range(int(rng.integers(1, 4)))])
            elif r < .75:
                ops = OPS if mode == "none" or rng.random() < .6 else TIMED
                n = pick(rng, list(ops))
                h.derive(n, ops[n], s, n not in ("convert",))
            elif r < .8:
                n = pick(rng, list(VALUE))
                h.derive(n, VALUE[n], s, False)
            elif r < .85:
                h.set(s, pick(rng, ATTRS if type(o).__name__.startswith("Forecast") else ATTRS[:3]))
            elif r < .9 and o.columns.is_unique:
                h.strip(s, bool(rng.random() < .4))
            elif type(o).__name__.startswith("Forecast") and o.columns.is_unique and mode != "other":
                h.stats(s, pick(rng, list(STATS)), {k: pick(rng, list(STATS)) for k in ("s", "hi", "std")[:int(rng.integers(0, 4))]}, bool(rng.random() < .5))
        return {"ev": h.ev}
    sessions += run.pmap(wander, range(run.n(420, 8000)), 3)
    run.judge("TraceRateGrid", sessions)
    run.assumptions += ["when no end is known the end of a concatenation is not judged", "statistics are tables; a column without any value has no statistics", "groupby.apply gives the groups the attribute name (pandas), see C14"]
