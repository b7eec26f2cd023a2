"""C14 - catalogues and DataFrame operations."""
import copy, hashlib, os, pickle
import numpy as np
import pandas as pd
from vh import *

ATTRS = ["name", "mc", "a_value", "delta_m", "b_value", "starttime", "endtime", "bounding_polygon", "depth_min", "depth_max", "n_catalogs"]
STD = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
MD = ["magnitude", "depth"]


def token(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:7], 16)


def cell(x):
    if isinstance(x, float):
        return "nan" if x != x else repr(float(x))
    return repr(x)


def ser(s):
    return f"{s.dtype}|" + ",".join(cell(x) for x in s.tolist())


def ftoken(o):
    """values of a table, series or any other result -> token"""
    def f(o):
        if isinstance(o, pd.DataFrame):
            cols = [o.iloc[:, i] for i in range(o.shape[1])]
            return "T" + repr([str(c) for c in o.columns]) + repr(list(o.columns.names)) + repr(list(o.index.names)) + \
                repr([cell(x) for x in o.index.tolist()]) + ";".join(ser(pd.Series(c)) for c in cols)
        if isinstance(o, pd.Series):
            return "S" + repr(str(o.name)) + repr([cell(x) for x in o.index.tolist()]) + ser(o)
        if isinstance(o, (list, tuple)):
            return type(o).__name__ + "[" + ",".join(f(x) for x in o) + "]"
        if isinstance(o, dict):
            return "D" + ",".join(repr(k) + f(v) for k, v in o.items())
        if isinstance(o, np.ndarray):
            return f(o.tolist())
        return cell(o)
    return token(f(o))


# operations on one table which return something; the result is compared with the same
# operation on a plain table
ROWS = {
 'copy': lambda c: c.copy(), 'shallow': lambda c: c.copy(deep=False), 'head': lambda c: c.head(2), 'tail': lambda c: c.tail(3), 'slice': lambda c: c[1:3],
 'bool': lambda c: c[c.magnitude > 1.5], 'cols': lambda c: c[list(c.columns)[::-1]], 'iloc': lambda c: c.iloc[[2, 0]], 'loc': lambda c: c.loc[1:2],
 'ilocbool': lambda c: c.iloc[np.array([True, False] + [True] * (len(c) - 2))], 'empty': lambda c: c.iloc[:0],
 'sort': lambda c: c.sort_values('magnitude'), 'sort2': lambda c: c.sort_values(['magnitude', 'depth'], ascending=[False, True], ignore_index=True),
 'sort_index': lambda c: c.sort_index(ascending=False), 'resetdrop': lambda c: c.reset_index(drop=True), 'droprow': lambda c: c.drop(index=0),
 'dropna': lambda c: c.dropna(), 'dropnasub': lambda c: c.dropna(subset=['depth']), 'fillna': lambda c: c.fillna({'depth': 0.}), 'ffill': lambda c: c.ffill(), 'bfill': lambda c: c.bfill(),
 'replace': lambda c: c.replace({'ML': 'Mx'}), 'where': lambda c: c.where(c.magnitude > 1.5), 'mask': lambda c: c.mask(c.magnitude > 1.5), 'round': lambda c: c.round(1),
 'shift': lambda c: c.shift(1), 'query': lambda c: c.query('magnitude>1.5'), 'nlargest': lambda c: c.nlargest(2, 'magnitude'), 'nsmallest': lambda c: c.nsmallest(2, 'magnitude'),
 'sample': lambda c: c.sample(2, random_state=1), 'dups': lambda c: c.drop_duplicates('magnitude'), 'isna': lambda c: c.isna(), 'notna': lambda c: c.notna(),
 'eq': lambda c: c == c, 'ne': lambda c: c != c, 'apply1': lambda c: c.apply(lambda r: r, axis=1), 'apply0': lambda c: c.apply(lambda s: s),
 'mode': lambda c: c.mode(), 'rank': lambda c: c.rank(), 'astypestr': lambda c: c.astype(str), 'astypeobj': lambda c: c.astype(object),
 'astype': lambda c: c.astype({'magnitude': 'float32'}), 'convert': lambda c: c.convert_dtypes(), 'infer': lambda c: c.infer_objects(),
 'gb_head': lambda c: c.groupby('event_type').head(1), 'gb_filter': lambda c: c.groupby('event_type').filter(lambda g: len(g) > 1), 'gb_get': lambda c: c.groupby('event_type').get_group('e'),
 'gb_iter': lambda c: [g for _, g in c.groupby('event_type')][0], 'gb_nth': lambda c: c.groupby('event_type').nth(0), 'gb_tail': lambda c: c.groupby('magnitude').tail(1),
 'reindex': lambda c: c.reindex([3, 1, 9]), 'align': lambda c: c.align(c.iloc[:2])[0], 'pickle': lambda c: pickle.loads(pickle.dumps(c)), 'copycopy': lambda c: copy.copy(c),
 'deepcopy': lambda c: copy.deepcopy(c), 'combine_first': lambda c: c.combine_first(c.iloc[:2]), 'truncate': lambda c: c.truncate(1, 2), 'take': lambda c: c.take([1, 2]), 'isin': lambda c: c.isin([1.]),
 'set_axis': lambda c: c.set_axis(list('abcdefghij')[:len(c)]), 'rename_axis': lambda c: c.rename_axis('i'), 'colslice': lambda c: c.loc[:, :], 'first_rows': lambda c: c.iloc[:3, :],
 'concat_one': lambda c: pd.concat([c]), 'concat_self': lambda c: pd.concat([c, c]), 'concat_ign': lambda c: pd.concat([c, c.iloc[:1]], ignore_index=True), 'concat_keys': lambda c: pd.concat({'a': c, 'b': c}),
 'concatdf': lambda c: pd.concat([c, pd.DataFrame({'magnitude': [1.]})]), 'merge_on': lambda c: c.merge(pd.DataFrame({'magnitude': [1., 2.]}), on='magnitude'), 'xs': lambda c: c.loc[[1]],
 'duplicated_rows': lambda c: c[~c.duplicated('magnitude')], 'pipe': lambda c: c.pipe(lambda x: x.iloc[::-1]), 'get': lambda c: c.get(list(c.columns)), 'reindex_like': lambda c: c.reindex_like(c.iloc[:2]),
 'transform_self': lambda c: c.transform(lambda x: x), 'map': lambda c: c.map(lambda x: x), 'filter_items': lambda c: c.filter(items=list(c.columns)), 'swap': lambda c: c.set_index('time').reset_index(), 'compare': lambda c: c.compare(c.assign(magnitude=0.)), 'between': lambda c: c[c.magnitude.between(1, 2)], 'update': lambda c: (lambda d: (d.update(pd.DataFrame({'magnitude': [9.]})), d)[1])(c.copy()),
}
EXTRA = {
 'assign': lambda c: c.assign(x=1), 'reset': lambda c: c.reset_index(), 'set_index': lambda c: c.set_index('time'), 'drop': lambda c: c.drop(columns='depth'), 'rename': lambda c: c.rename(columns={'depth': 'z'}),
 'eval': lambda c: c.eval('y=magnitude*2'), 'insert': lambda c: (lambda d: (d.insert(1, 'q', 7), d)[1])(c.copy()), 'concat1': lambda c: pd.concat([c, c], axis=1), 'concat_col': lambda c: pd.concat([c, pd.Series(range(4), name='w')], axis=1),
 'merge': lambda c: pd.merge(c, c, on=['magnitude', 'time']), 'merge2': lambda c: c.merge(pd.DataFrame({'magnitude': [1., 2.], 'w': [1, 2]}), on='magnitude'),
 'merge_left': lambda c: c.merge(pd.DataFrame({'time': c.time, 'w': 1}), how='left'), 'merge_idx': lambda c: c.merge(pd.DataFrame({'w': [5, 6]}), left_index=True, right_index=True), 'join': lambda c: c.join(pd.DataFrame({'w': [1, 2, 3, 4]})),
 'merge_asof': lambda c: pd.merge_asof(c, pd.DataFrame({'time': c.time, 'w': 1}), on='time'), 'merge_ordered': lambda c: pd.merge_ordered(c, pd.DataFrame({'magnitude': [1., 5.], 'w': 1})), 'T': lambda c: c.T, 'corr': lambda c: c.corr(numeric_only=True), 'cov': lambda c: c.cov(numeric_only=True),
 'melt': lambda c: c.melt(id_vars=['magnitude']), 'stack': lambda c: c.stack(), 'applyrow': lambda c: c.apply(lambda r: r.magnitude, axis=1), 'dot': lambda c: c[MD].dot(pd.DataFrame(np.eye(2), index=MD, columns=['p', 'q'])),
 'cumsum': lambda c: c[MD].cumsum(), 'diff': lambda c: c[MD].diff(), 'abs': lambda c: c[MD].abs(), 'add': lambda c: c[MD] + 1, 'addc': lambda c: c[MD] + c[MD], 'neg': lambda c: -c[MD], 'invert': lambda c: ~(c[MD] > 1),
 'clip': lambda c: c[MD].clip(0, 2), 'select_dtypes': lambda c: c.select_dtypes('number'), 'filter': lambda c: c.filter(regex='^magn|catalog'), 'gb_transform': lambda c: c.groupby('event_type')[MD].transform('max'),
 'reindexcols': lambda c: c.reindex(columns=['magnitude', 'q']), 'explode': lambda c: c.assign(l=[[1, 2]] * len(c)).explode('l'), 'interpolate': lambda c: c[MD].interpolate(), 'dummies': lambda c: pd.get_dummies(c, columns=['event_type']),
 'combine': lambda c: c[MD].combine(c[MD], np.minimum), 'duplicated': lambda c: c.duplicated(), 'nunique': lambda c: c.nunique(), 'idxmax': lambda c: c.magnitude.idxmax(), 'sum': lambda c: c.sum(numeric_only=True), 'mean': lambda c: c.mean(numeric_only=True),
 'value_counts': lambda c: c.value_counts(), 'iterrows': lambda c: list(c.iterrows())[0][1], 'itertuples': lambda c: [tuple(t) for t in c.itertuples()], 'to_dict': lambda c: c.to_dict('records'), 'to_dictl': lambda c: c.to_dict('list'), 'to_csv': lambda c: c.to_csv(), 'to_json': lambda c: c.to_json(),
 'repr': lambda c: repr(c), 'html': lambda c: c.to_html(), 'equals': lambda c: c.equals(c), 'at': lambda c: c.at[1, 'magnitude'], 'xsrow': lambda c: c.xs(1), 'asof': lambda c: c.set_index('time').asof(pd.Timestamp('2020-01-02')),
 'between_time': lambda c: c.set_index('time').between_time('00:00', '01:00'), 'first_valid': lambda c: c.first_valid_index(), 'droplevel': lambda c: c.set_index(['time', 'depth']).droplevel(0), 'unstack': lambda c: c.unstack(), 'tz': lambda c: c.set_index('time').tz_localize('UTC'),
 'asfreq': lambda c: c.set_index('time').asfreq('D'), 'isnaany': lambda c: c.isna().any(), 'shape': lambda c: list(c.shape), 'dtypes': lambda c: [str(d) for d in c.dtypes], 'values': lambda c: c[MD].values, 'memory': lambda c: c.memory_usage().index.tolist(), 'series': lambda c: c['magnitude'], 'map2': lambda c: c[MD].map(lambda x: x * 2),
 'transform': lambda c: c[MD].transform(lambda x: x + 1), 'cummax': lambda c: c[MD].cummax(), 'mul': lambda c: c[MD].mul(2), 'floordiv': lambda c: c[MD] // 1, 'gt': lambda c: c[MD] > 1, 'np': lambda c: np.sqrt(c[MD]), 'loccols': lambda c: c.loc[:, ['magnitude', 'time']], 'colsempty': lambda c: c[[]], 'swaplevel': lambda c: c.set_index(['time', 'depth']).swaplevel(), 'pct': lambda c: c[MD].pct_change(), 'crosstab': lambda c: pd.crosstab(c.magnitude, c.depth), 'gb_size': lambda c: c.groupby('event_type').size(), 'gb_count': lambda c: c.groupby('event_type').count()['depth'], 'rank2': lambda c: c[MD].rank(), 'to_numpy': lambda c: c.to_numpy(),
 'pivot': lambda c: c.pivot(columns='event_type', values='depth'), 'cut': lambda c: c.groupby(pd.cut(c.magnitude, 2), observed=False).size(), 'dropmt': lambda c: c.drop(columns=['magnitude_type', 'time']), 'renamef': lambda c: c.rename(columns=str.upper), 'explode_mt': lambda c: c.explode('magnitude_type'), 'quantile': lambda c: c[['depth']].quantile([.1, .9]), 'lookup': lambda c: c.loc[1, 'magnitude'], 'items': lambda c: [k for k, _ in c.items()], 'memory2': lambda c: len(c)}
NOMAG = [lambda c: c.drop(columns='magnitude'), lambda c: c[[x for x in c.columns if x != 'magnitude']], lambda c: c.loc[:, [x for x in c.columns if x != 'magnitude']],
         lambda c: c.rename(columns={'magnitude': 'm'}), lambda c: c.filter(items=[x for x in c.columns if x != 'magnitude']), lambda c: c.reindex(columns=[x for x in c.columns if x != 'magnitude']), lambda c: c.set_index('magnitude')]
NOCID = [lambda c: c.drop(columns='catalog_id', errors='ignore'), lambda c: c[[x for x in c.columns if x != 'catalog_id']], lambda c: c.rename(columns={'catalog_id': 'cid'}),
         lambda c: c.loc[:, [x for x in c.columns if x != 'catalog_id']], lambda c: c.iloc[:, [i for i, x in enumerate(c.columns) if x != 'catalog_id']]]
WITHCID = [lambda c: c.join(pd.DataFrame({'catalog_id': 5}, index=range(12))), lambda c: c.merge(pd.DataFrame({'catalog_id': 5}, index=range(12)), left_index=True, right_index=True, how='left'),
           lambda c: pd.concat([c, pd.Series(5, index=c.index, name='catalog_id')], axis=1), lambda c: c.reindex(columns=list(c.columns) + ['catalog_id']), lambda c: c.merge(pd.DataFrame({'catalog_id': [5, 6]}), how='cross'),
           lambda c: c.rename(columns={'event_type': 'catalog_id'}), lambda c: c.reset_index(names='catalog_id')]
RELABEL = [NOMAG[3], NOMAG[6], NOCID[2], WITHCID[5], WITHCID[6]]
COMBINE = [lambda a, b: pd.concat([a, b]), lambda a, b: pd.concat([a, b], ignore_index=True), lambda a, b: pd.concat({'k': a, 'l': b}), lambda a, b: a.combine_first(b), lambda a, b: pd.concat((x for x in (a, b))), lambda a, b: pd.concat([a, b, b], sort=True),
           lambda a, b: pd.concat([a, b], join='inner'), lambda a, b: a.join(b, rsuffix='_r'), lambda a, b: a.merge(b, left_index=True, right_index=True, suffixes=(None, '_r')), lambda a, b: pd.merge(a, b, how='outer'), lambda a, b: pd.concat([a, b], axis=1)]
INPLACE = {'setcol': lambda c: c.__setitem__('w', 1), 'del': lambda c: c.__delitem__('depth'), 'setmag': lambda c: c.__setitem__('magnitude', c['magnitude'] + 1), 'loc': lambda c: c.loc.__setitem__((0, 'magnitude'), 5.), 'iat': lambda c: c.iat.__setitem__((1, 0), 5.),
           'sort': lambda c: c.sort_values('magnitude', inplace=True), 'drop': lambda c: c.drop(columns='depth', inplace=True), 'droprow': lambda c: c.drop(index=0, inplace=True), 'rename': lambda c: c.rename(columns={'depth': 'z'}, inplace=True),
           'reset': lambda c: c.reset_index(drop=True, inplace=True), 'fillna': lambda c: c.fillna({'depth': 0.}, inplace=True), 'insert': lambda c: c.insert(0, 'q', 1), 'pop': lambda c: c.pop('depth'), 'dropna': lambda c: c.dropna(inplace=True), 'update': lambda c: c.update(pd.DataFrame({'magnitude': [7.]})),
           'isetitem': lambda c: c.isetitem(0, list(range(len(c)))), 'dup': lambda c: c.drop_duplicates('magnitude', inplace=True), 'columns': lambda c: setattr(c, 'columns', [str(x) + '_' if x == 'depth' else x for x in c.columns]), 'index': lambda c: setattr(c, 'index', range(3, 3 + len(c))), 'query': lambda c: c.query('magnitude>1', inplace=True), 'eval': lambda c: c.eval('y=magnitude*2', inplace=True), 'attrset': lambda c: setattr(c, 'depth', 3.)}
INP = {"nomag": [lambda c: c.__delitem__('magnitude'), lambda c: c.drop(columns='magnitude', inplace=True), lambda c: c.pop('magnitude')],
       "nocid": [lambda c: c.__delitem__('catalog_id'), lambda c: c.drop(columns='catalog_id', inplace=True), lambda c: c.rename(columns={'catalog_id': 'cid'}, inplace=True)],
       "withcid": [lambda c: c.__setitem__('catalog_id', 3), lambda c: c.insert(0, 'catalog_id', 3), lambda c: c.rename(columns={'event_type': 'catalog_id'}, inplace=True)]}


class H:
    """one history: a pool of objects and the recorded events"""

    def __init__(self, rng):
        self.rng, self.pool, self.ev, self.tok = rng, [], [], {}
        self.plainkey = {}

    def val(self, v):
        if v is None or v is pd.NaT:
            return 0
        key = type(v).__name__ + repr(v)
        return self.tok.setdefault(key, len(self.tok) + 1)

    def look(self, o):
        k = {"Catalog": "catalog", "ForecastCatalog": "forecast", "DataFrame": "plain"}.get(type(o).__name__, "other")
        d = o.__dict__
        return {"kind": k, "cols": [str(c) for c in o.columns], "data": ftoken(o),
                "attrs": {a: (self.val(getattr(o, a)) if a in d else -1) for a in ATTRS}}

    def after(self):
        return [self.look(o) for o in self.pool]

    def value(self, a):
        r = self.rng
        k = int(r.integers(0, 1000))
        if a == "name":
            return [None, "", "x", f"n{k}", 0, k][int(r.integers(6))]
        if a in ("starttime", "endtime"):
            return [pd.Timestamp("1999-01-01") + pd.Timedelta(days=k), pd.Timestamp("2020-02-02"), pd.Timestamp("2020-01-01")][int(r.integers(3))]
        if a == "bounding_polygon":
            from shapely import Polygon
            return [Polygon([(0, 0), (1, 0), (k, 5)]), "POLYGON", None][int(r.integers(3))]
        if a == "n_catalogs":
            return [None, 0, k, 7][int(r.integers(4))]
        return [None, 0, 0.0, k / 10, -1.5, np.float64(k / 7), float("nan")][int(r.integers(7))]

    def new(self, kind):
        from seismostats import Catalog, ForecastCatalog
        r = self.rng
        n = int(r.integers(3, 7))
        d = dict(longitude=np.arange(n) * 1., latitude=np.arange(n) + 1., depth=[1., 2, np.nan, 4, 5, np.nan][:n], time=pd.date_range('2020', periods=n),
                 magnitude=[1., 3, 2, 2, 1, 1.5][:n], magnitude_type=['ML', 'Mw', None, 'ML', 'ML', 'Mw'][:n])
        if r.random() < .85:
            d["event_type"] = ['e', 'f', 'e', 'f', 'e', 'f'][:n]
        if r.random() < .15:
            d.pop("depth")
        if r.random() < .2:
            d["weight"] = np.arange(n) + .5
        attrs = [a for a in ATTRS if r.random() < .7 and (a != "n_catalogs" or kind == "forecast")]
        kw = {a: self.value(a) for a in attrs}
        if kind == "forecast":
            d["catalog_id"] = [0, 0, 1, 1, 2, 2][:n]
        cls = ForecastCatalog if kind == "forecast" else Catalog
        o, err = call(cls, d, **kw)
        if not err:
            self.pool.append(o)
        at = {a: self.val(kw.get(a)) for a in ATTRS}
        if kind != "forecast":
            at["n_catalogs"] = -1
        self.ev.append({"op": "new", "kind": kind, "attrs": at, "err": err, "after": self.after()})

    def derive(self, name, f, src, others=()):
        relabel = name in ("renamef", "assign", "explode") or f in RELABEL
        if others and not isc(self.pool[src]):      # a plain first operand is outside the property
            name, f, others = "copy", ROWS["copy"], ()
        ops = [self.pool[src]] + [self.pool[i] for i in others]
        plain = [pd.DataFrame(o, copy=True) for o in ops]
        want, perr = call(f, *plain)
        got, err = call(f, *ops)
        e = {"op": "derive", "what": name, "src": src + 1, "relabel": relabel, "err": err, "perr": perr, "rkind": "other", "rdata": 0, "pdata": 0}
        new = False
        if not perr:
            e["pdata"] = ftoken(want)
        if not err:
            if isinstance(got, pd.DataFrame):
                if any(got is o for o in self.pool):
                    got = got.copy()
                e["rkind"] = self.look(got)["kind"]
                self.pool.append(got)
                new = True
            e["rdata"] = ftoken(got)
        e["after"] = self.after()
        self.ev.append(e)
        return new

    def inplace(self, name, f, src):
        p = pd.DataFrame(self.pool[src], copy=True)
        _, perr = call(f, p)
        _, err = call(f, self.pool[src])
        self.ev.append({"op": "inplace", "what": name, "src": src + 1, "err": err, "perr": perr, "pdata": ftoken(p), "after": self.after()})

    def set(self, src, attr):
        v = self.value(attr)
        _, err = call(setattr, self.pool[src], attr, v)
        self.ev.append({"op": "set", "src": src + 1, "attr": attr, "value": self.val(v), "err": err, "after": self.after()})

    def strip(self, src):
        o = self.pool[src]
        inp = bool(self.rng.random() < .4)
        keep = [c for c in o.columns if c in STD or (c == "catalog_id" and type(o).__name__ == "ForecastCatalog")]
        pd_ = ftoken(pd.DataFrame(o, copy=True).iloc[:, [i for i, c in enumerate(o.columns) if c in keep]])
        r, err = call(o.strip, inplace=inp) if inp or self.rng.random() < .5 else call(o.strip)
        if not err and not inp:
            self.pool.append(r)
        self.ev.append({"op": "strip", "src": src + 1, "inplace": inp, "err": err, "pdata": pd_, "after": self.after()})

    def bin(self, src):
        from seismostats.utils import bin_to_precision
        o = self.pool[src]
        inp = bool(self.rng.random() < .4)
        dm = [None, None, .1, .5, 1.0][int(self.rng.integers(5))]
        use = o.delta_m if dm is None else dm
        if use is not None and not use > 0:
            return
        p = pd.DataFrame(o, copy=True)
        if use is not None:
            p["magnitude"] = bin_to_precision(p["magnitude"], use)
        kw = {} if dm is None and self.rng.random() < .5 else {"delta_m": dm}
        r, err = call(o.bin_magnitudes, inplace=inp, **kw)
        if not err and not inp:
            self.pool.append(r)
        self.ev.append({"op": "bin", "src": src + 1, "inplace": inp, "dm": self.val(dm), "err": err, "pdata": ftoken(p), "after": self.after()})


def isc(o):
    return type(o).__name__ in ("Catalog", "ForecastCatalog")


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def main(run):
    cases = run.model("MCCatalogOps", cfg(constants=dict(Depth=run.n("3", "4"), MaxObj="4"), invariants=["AttrsFollowHistory", "PlainStaysPlain", "Emit"]),
                      label="all histories of deriving, combining, in-place changes and attribute changes")
    idx = run.rng.permutation(len(cases))[: run.n(700, 6000)]

    def replay(c, rng):
        h = H(rng)
        where = {}          # object of the model -> position in the pool
        for s in c["h"]:
            op = s[0]
            if op == "new":
                h.new(s[1])
                where[1] = 0
            elif op == "set":
                a = "n_catalogs" if s[1] == "n_catalogs" else pick(rng, [x for x in ATTRS if x != "n_catalogs"])
                o = h.pool[where[s[2]]]
                if isc(o) and (a != "n_catalogs" or type(o).__name__ == "ForecastCatalog"):
                    h.set(where[s[2]], a)
            elif op == "inplace":
                h.inplace(s[1], pick(rng, INP[s[1]]), where[s[2]])
            else:
                src = where[s[2]]
                if op == "combine":
                    new = h.derive(op, pick(rng, COMBINE), src, (where[s[3]],))
                elif op == "rows":
                    k = pick(rng, list(ROWS))
                    new = h.derive(k, ROWS[k], src)
                else:
                    new = h.derive(op, pick(rng, {"nomag": NOMAG, "nocid": NOCID, "withcid": WITHCID}[op]), src)
                if not new:
                    h.derive("copy", ROWS["copy"], src)
                where[len(where) + 1] = len(h.pool) - 1
        return {"ev": h.ev}
    sessions = run.pmap(replay, [cases[int(i)] for i in idx], 1)

    def single(item, rng):                 # every operation on a fresh object, and once more on its result
        name, f, kind = item
        h = H(rng)
        h.new(kind)
        if h.derive(name, f, 0) and isc(h.pool[1]):
            h.set(1, pick(rng, ATTRS[:10]))
            k = pick(rng, list(ROWS))
            h.derive(k, ROWS[k], 1)
            if rng.random() < .5:
                h.strip(1)
        return {"ev": h.ev}
    singles = [(k, f, kind) for d in (ROWS, EXTRA) for k, f in d.items() for kind in ("catalog", "forecast") for _ in range(run.n(1, 6))]
    sessions += run.pmap(single, singles, 2)

    def wander(k, rng):
        h = H(rng)
        h.new(pick(rng, ["catalog", "forecast"]))
        if rng.random() < .5:
            h.new(pick(rng, ["catalog", "forecast"]))
        for _ in range(int(rng.integers(3, 12))):
            s = int(rng.integers(len(h.pool)))
            r = rng.random()
            if len(h.pool) > 7:
                break
            if r < .3:
                k = pick(rng, list(ROWS))
                h.derive(k, ROWS[k], s)
            elif r < .45:
                k = pick(rng, list(EXTRA))
                h.derive(k, EXTRA[k], s)
            elif r < .55:
                h.derive("c", pick(rng, NOMAG + NOCID + WITHCID), s)
            elif r < .65:
                h.derive("combine", pick(rng, COMBINE), s, (int(rng.integers(len(h.pool))),))
            elif r < .75:
                k = pick(rng, list(INPLACE))
                h.inplace(k, INPLACE[k], s)
            elif not isc(h.pool[s]):
                continue
            elif r < .85:
                h.set(s, pick(rng, ATTRS if type(h.pool[s]).__name__ == "ForecastCatalog" else ATTRS[:10]))
            elif r < .95:
                h.strip(s)
            elif "magnitude" in h.pool[s].columns and h.pool[s].columns.is_unique and h.pool[s]["magnitude"].dtype == float:
                h.bin(s)
        return {"ev": h.ev}
    sessions += run.pmap(wander, range(run.n(500, 5000)), 3)

    def gbapply(k, rng):                   # groupby(...).apply gives every group the attribute "name" (pandas)
        h = H(rng)
        h.new(pick(rng, ["catalog", "forecast"]))
        o = h.pool[0]
        r, err = call(lambda: o.groupby("magnitude").apply(lambda g: g.head(1)))
        if not err:
            h.pool.append(r)
        a = h.after()
        h.ev.append({"op": "gbapply", "src": 1, "err": err, "after": a})
        return {"ev": h.ev, "kf": "groupby-apply-name"}
    sessions += run.pmap(gbapply, range(8), 4)
    run.judge("TraceCatalogOps", sessions)
    run.assumptions += ["summaries (describe, agg, moving windows) and operations on a plain first operand are outside the property",
                        "every operation is compared with the same operation of the installed pandas on a plain table"]
