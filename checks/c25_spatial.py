"""C25 - selection by a polygon, local coordinates, bounding boxes."""
import numpy as np
import pandas as pd
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
N = NOTINT - 1


# ------------------------------------------------------------------ polygons
def cell(x):
    return f"{type(x).__name__ if isinstance(x, (bool, str, np.bool_)) else ''}:{x!r}" if not isinstance(x, (float, np.floating)) else ("nan" if math.isnan(x) else float(x).hex())


def rows_of(df, tok):
    out = []
    for i in range(len(df)):
        t = tuple([cell(df.index[i])] + [cell(df.iloc[i, j]) for j in range(df.shape[1])])
        out.append(tok.setdefault(t, len(tok)))
    return out


def select(rng, P, pts, unit, off, closed=False):
    from seismostats import Catalog, ForecastCatalog
    from seismostats.utils.filtering import cat_intersect_polygon
    n = len(pts)
    lat = [math.nan if p[0] == N else p[0] * unit + off[0] for p in pts]
    lon = [math.nan if p[1] == N else p[1] * unit + off[1] for p in pts]
    d = {"latitude": np.array(lat, float), "longitude": np.array(lon, float), "rid": np.arange(n)}
    if rng.random() < .3:
        d = {"longitude": d["longitude"], "rid": d["rid"], "latitude": d["latitude"]}
    kind = pick(rng, ["Catalog", "Catalog", "ForecastCatalog", "DataFrame"])
    if kind != "DataFrame":
        d["magnitude"] = rng.integers(0, 40, n) * .1
        if rng.random() < .5:
            d["time"] = pd.Timestamp("2020-01-01") + pd.to_timedelta(rng.integers(0, 10 ** 9, n), "s")
        if rng.random() < .3:
            d["depth"] = np.where(rng.random(n) < .3, np.nan, 3.)
    if kind == "ForecastCatalog":
        d["catalog_id"] = rng.integers(0, 3, n)
    for c in ["inside_polygon", "inside", "event_type", "x", "index"]:
        if rng.random() < .15:
            d[c] = pick(rng, [np.array(["a"] * n, dtype=object), rng.random(n) < .5, rng.random(n), np.full(n, np.nan), np.zeros(n, bool)])
    idx = pick(rng, [np.arange(n), np.arange(n)[::-1], rng.integers(0, 3, n), np.arange(n) + 7, np.array([f"r{i}" for i in range(n)], dtype=object)])
    cls = {"Catalog": Catalog, "ForecastCatalog": ForecastCatalog, "DataFrame": pd.DataFrame}[kind]
    cat = cls(d).set_axis(idx, axis=0)
    cat = cat[[c for c in cat.columns if c in d]]
    if rng.random() < .2:
        cat.index.name = pick(rng, ["inside_polygon", "latitude", "k"])
    V = [(v[0] * unit + off[0], v[1] * unit + off[1]) for v in P]
    if closed:
        V = V + [V[0]]
    form = int(rng.integers(4))
    V = V if form < 2 else [list(v) for v in V] if form == 2 else np.array(V, float)
    tok = {}
    before, keep, c0, t0 = rows_of(cat, tok), snap(V), [str(c) for c in cat.columns], type(cat).__name__
    r, err = call(cat_intersect_polygon, cat, V)
    e = {"k": "select", "P": [list(v) for v in P], "pts": [list(p) for p in pts], "before": before, "cols0": c0, "cls0": t0, "err": err, "rows": [], "cells": [], "cols": [], "cls": "", "same": True}
    if not err and not (hasattr(r, "columns") and "rid" in r.columns):
        e["err"] = "no table"
    elif not err:
        e |= {"rows": [small_int(x) + 1 for x in r["rid"]], "cells": rows_of(r, tok), "cols": [str(c) for c in r.columns], "cls": type(r).__name__,
              "same": rows_of(cat, tok) == before and [str(c) for c in cat.columns] == c0 and same(snap(V), keep)}
    return e


def simple_polygon(rng, R):
    """star-shaped or stepped polygon with integer vertices, collinear vertices included"""
    k = int(rng.integers(4))
    if k == 0:
        x, y = 0, 0
        up = [(0, 0)]
        for _ in range(int(rng.integers(1, 5))):
            x += int(rng.integers(1, R))
            up.append((x, y))
            y += int(rng.integers(1, R))
            up.append((x, y))
        P = up + [(0, y)]
    elif k == 1:
        w, h = int(rng.integers(1, 2 * R)), int(rng.integers(1, 2 * R))
        P = [(0, 0), (w, 0), (w, h), (0, h)]
    else:
        n = int(rng.integers(3, 12))
        a = np.sort(rng.random(n)) * 2 * np.pi
        rad = rng.integers(1, R + 1, n)
        P = []
        for i in range(n):
            v = (int(round(rad[i] * math.cos(a[i]))), int(round(rad[i] * math.sin(a[i]))))
            if v not in P:
                P.append(v)
    if rng.random() < .4:       # vertices on an edge
        P = [(2 * x, 2 * y) for x, y in P]
        i = int(rng.integers(len(P)))
        a, b = P[i], P[(i + 1) % len(P)]
        P.insert(i + 1, ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
    if rng.random() < .5:
        P = P[::-1]
    s = int(rng.integers(len(P)))
    return P[s:] + P[:s]


def random_select(item, rng):
    from shapely.geometry import Polygon
    R = pick(rng, [4, 10, 40, 1500])
    for _ in range(20):
        P = simple_polygon(rng, R)
        if len(set(P)) == len(P) >= 3 and Polygon(P).is_valid:
            break
    unit = pick(rng, [1 / 64, 1 / 8, .25, 2.0 ** -22, 2.0 ** -40]) if R < 1500 else 2.0 ** -10
    off = (pick(rng, [0, 0, 40, -17.5, 46.25]), pick(rng, [0, 0, 8, -120.5, 9.125]))
    n = int(rng.integers(0, 14)) if rng.random() < .9 else 0
    pts = []
    X, Y = [v[0] for v in P], [v[1] for v in P]
    for _ in range(n):
        k = int(rng.integers(5))
        v, i = pick(rng, P), int(rng.integers(len(P)))
        if k == 0:
            p = v
        elif k == 1:
            p = (v[0] + int(rng.integers(-1, 2)), v[1] + int(rng.integers(-1, 2)))
        elif k == 2:
            w = P[(i + 1) % len(P)]
            g = math.gcd(w[0] - P[i][0], w[1] - P[i][1])
            t = int(rng.integers(-1, g + 2))
            p = (P[i][0] + (w[0] - P[i][0]) // g * t, P[i][1] + (w[1] - P[i][1]) // g * t)
        elif k == 3:
            p = (int(rng.integers(min(X) - 2, max(X) + 3)), v[1])
        else:
            p = (int(rng.integers(min(X) - 2, max(X) + 3)), int(rng.integers(min(Y) - 2, max(Y) + 3)))
        if rng.random() < .05:
            p = pick(rng, [(N, p[1]), (p[0], N), (N, N)])
        pts.append(p)
    return {"ev": [select(rng, P, pts, unit, off, closed=rng.random() < .2)]}


def lattice_select(case, rng):
    g = case["g"]
    pts = [(x, y) for x in range(-1, g + 1) for y in range(-1, g + 1)]
    pts = [pts[int(i)] for i in rng.permutation(len(pts))]
    return {"ev": [select(rng, case["P"], pts, pick(rng, [1., .5, 2 ** -7]), (pick(rng, [0, 45.5]), pick(rng, [0, -7.25])), closed=rng.random() < .2)]}


# ------------------------------------------------------------------ local coordinates
RADIX = 10 ** 8
UTM = "+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs"
GEO, MET = (RADIX and 1e-9), 1e-6
#        local, lon range, lat range, unit of the local system, tolerance of the way back (1e-9 degrees)
SYSTEMS = [(2056, (6, 10.4), (45.9, 47.7), MET, 300), ("epsg:2056", (6, 10.4), (45.9, 47.7), MET, 300), (21781, (6, 10.4), (45.9, 47.7), MET, 300),
           (UTM, (6, 12), (30, 70), MET, 20), (32632, (6, 12), (-70, 70), MET, 20), (3857, (-170, 170), (-80, 80), MET, 20),
           ("+proj=longlat +datum=WGS84 +pm=10 +no_defs", (-100, 100), (-80, 80), GEO, 5), (4326, (-170, 170), (-80, 80), GEO, 5)]
REFS = [2056, 4326, UTM, 21781]


def pair(x, unit):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [NOTINT, 0]
    if not math.isfinite(x) or abs(x) > 1e9:
        return [NOTINT, 1]
    h, u = divmod(int(round(x / unit)), RADIX)
    return [h, u]


def triples(c, unit):
    """coordinate arrays -> list of <<x, y, altitude>>"""
    if not (isinstance(c, (tuple, list)) and len(c) == 3):
        return [[[NOTINT, 2]] * 3]
    x, y = np.ravel(np.asarray(c[0], float)), np.ravel(np.asarray(c[1], float))
    z = None if c[2] is None else np.ravel(np.asarray(c[2], float))
    if len(x) != len(y) or (z is not None and len(z) != len(x)):
        return [[[NOTINT, 3]] * 3]
    return [[pair(x[i], unit), pair(y[i], unit), [] if z is None else pair(z[i], MET)] for i in range(len(x))]


def project(tr, pts):
    """independent projection of every point by itself"""
    out = []
    for p in pts:
        if p[2] is None:
            q = tr.transform(p[0], p[1])
            out.append((q[0], q[1], None))
        else:
            out.append(tr.transform(p[0], p[1], p[2]))
    return out


def as_pairs(pts, unit):
    return [[pair(p[0], unit), pair(p[1], unit), [] if p[2] is None else pair(p[2], MET)] for p in pts]


def shaped(rng, pts, form):
    x, y, z = [p[0] for p in pts], [p[1] for p in pts], [p[2] for p in pts]
    f = (lambda v: float(v[0])) if form == 0 else list if form == 1 else (lambda v: np.array(v, float)) if form == 2 else (lambda v: pd.Series(v, index=np.arange(len(v)) + 4, dtype=float))
    return f(x), f(y), None if z[0] is None else f(z)


def local_session(hist, rng):
    import pyproj
    from shapely.geometry import Polygon
    from seismostats.utils import CoordinateTransformer
    T = lambda a, b: pyproj.Transformer.from_crs(a, b, always_xy=True)
    loc, lons, lats, U, back = pick(rng, SYSTEMS)
    ext, EU = 4326, GEO
    if rng.random() < .15:
        ext, EU, loc, U = UTM, MET, 4326, GEO
        lons, lats = (300e3, 700e3), (5e6, 5.4e6)
        back = 10 ** 4
    fw, inv = T(ext, loc), T(loc, ext)
    tol = 5
    ev, ct, last, ref = [], None, None, None
    rnd = lambda lo, hi: float(np.round(rng.uniform(lo, hi), int(rng.integers(0, 8)))) if EU == GEO else float(np.round(rng.uniform(lo, hi), int(rng.integers(0, 3))))

    def points(alt, n):
        return [(min(max(rnd(*lons), lons[0]), lons[1]), min(max(rnd(*lats), lats[0]), lats[1]), ((0. if rng.random() < .25 else float(rng.integers(-9000, 9000)) * .5) if alt else None)) for _ in range(n)]
    for s in hist:
        if s in ("new", "newref") or ct is None:
            kw, refp = {}, [0., 0., 0.]
            p0 = points(False, 1)[0]
            l0 = fw.transform(p0[0], p0[1])
            if s == "newref" or rng.random() < .9:
                g = (pick(rng, REFS) if not (ext == UTM or loc in (3857, 32632) or (isinstance(loc, str) and "+pm" in loc)) else 4326) if s == "newref" else None
                if g is not None:
                    geo = T(loc, 4326).transform(*l0)
                    geo = (min(max(geo[0], 6.), 10.), min(max(geo[1], 45.9), 47.7)) if g != 4326 else geo
                    r = T(4326, g).transform(*geo)
                    r = tuple(round(float(v), 3) for v in r)
                    q = T(g, loc).transform(*r)
                    kw = {"ref_easting": r[0], "ref_northing": r[1], "ref_proj": g}
                    refp = [q[0], q[1], 0.]
                else:
                    r = tuple(round(float(v), 2) for v in l0)
                    kw = {"ref_easting": pick(rng, [float, np.float64])(r[0]), "ref_northing": r[1]}
                    refp = [r[0], r[1], 0.]
                if rng.random() < .7:
                    kw["ref_altitude"] = float(rng.integers(-500, 3000))
                    refp[2] = kw["ref_altitude"]
            if ext != 4326 or rng.random() < .3:
                kw["external_proj"] = ext
            if len(kw) >= 2 and rng.random() < .3 and "ref_easting" in kw and "ref_northing" in kw:
                ct, err = call(CoordinateTransformer, loc, kw.pop("ref_easting"), kw.pop("ref_northing"), **kw)
            else:
                ct, err = call(CoordinateTransformer, loc, **kw)
            ref = refp
            ev.append({"k": "new", "ref": [pair(refp[0], U), pair(refp[1], U), pair(refp[2], MET)], "err": err})
            if err:
                return {"ev": ev}
            last = None
            if s in ("new", "newref"):
                continue
        alt = s in ("toalt", "fromalt") or (s == "poly" and rng.random() < .5)
        form = int(rng.integers(4))
        pts = points(alt, 1 if form == 0 else int(rng.integers(1, 5)))
        if s in ("to", "toalt"):
            a = shaped(rng, pts, form)
            keep = snap(*a)
            r, err = call(ct.to_local_coords, *(a if alt or rng.random() < .5 else a[:2]))
            e = {"k": "to", "err": err, "ext": as_pairs(pts, EU), "proj": as_pairs(project(fw, pts), U), "got": [], "same": same(a, keep), "tol": tol}
            if not err:
                e["got"] = triples(r, U)
                last = (len(ev) + 1, r, form)
            ev.append(e)
        elif s in ("from", "fromalt"):
            of, b = 0, back
            if last and rng.random() < .8:
                of, a, _ = last
                r0 = [np.ravel(np.asarray(v, float)) if v is not None else None for v in a]
                lp = [(float(r0[0][i]), float(r0[1][i]), None if r0[2] is None else float(r0[2][i])) for i in range(len(r0[0]))]
                if rng.random() < .3:
                    a = tuple(v.tolist() if hasattr(v, "tolist") else v for v in a)
            else:
                pr = project(fw, pts)
                lp = [(round(float(p[0]) - ref[0], 4), round(float(p[1]) - ref[1], 4), None if p[2] is None else p[2] - ref[2]) for p in pr]
                a = shaped(rng, lp, form)
            keep = snap(*a)
            r, err = call(ct.from_local_coords, *(a if a[2] is not None or rng.random() < .5 else a[:2]))
            e = {"k": "from", "err": err, "of": of, "back": b, "loc": as_pairs(lp, U), "proj": [], "got": [], "same": same(tuple(a), tuple(keep)), "tol": 20000 if U == MET else 300}
            if not err:
                e["got"] = triples(r, EU)
                g = [np.ravel(np.asarray(v, float)) if v is not None else None for v in r] if isinstance(r, (tuple, list)) and len(r) == 3 else None
                if g is None or len(g[0]) != len(lp):
                    e["proj"] = [[[NOTINT, 4]] * 3]
                else:
                    e["proj"] = as_pairs(project(fw, [(g[0][i], g[1][i], None if g[2] is None else g[2][i]) for i in range(len(lp))]), U)
            ev.append(e)
        else:
            n = int(rng.integers(3, 7))
            c = points(alt, 1)[0]
            w, hgt = (.3, .2) if EU == GEO else (3e4, 2e4)
            ring = lambda k, f: [(c[0] + w * f * math.cos(2 * math.pi * i / k), c[1] + hgt * f * math.sin(2 * math.pi * i / k)) + ((0. if rng.random() < .3 else float(rng.integers(-500, 500)),) if alt else ()) for i in range(k)]
            shell, holes = ring(n, 1.), [ring(3, .3)] if rng.random() < .4 else []
            if rng.random() < .5:
                shell = shell[::-1]
            rings = lambda P: [list(P.exterior.coords)] + [list(i.coords) for i in P.interiors]
            full = lambda v: (v[0], v[1], v[2] if len(v) > 2 else None)
            P = Polygon(shell, holes)
            w0 = P.wkt
            back_way = rng.random() < .5
            if not back_way:
                r, err = call(ct.polygon_to_local_coords, P)
                e = {"k": "polyto", "err": err, "got": [], "proj": [as_pairs(project(fw, [full(v) for v in R]), U) for R in rings(P)], "same": P.wkt == w0, "tol": tol}
                if not err:
                    e["got"] = [as_pairs([full(v) for v in R], U) for R in rings(r)] if hasattr(r, "exterior") else []
                ev.append(e)
            else:
                L = [[full(v) for v in R] for R in rings(P)]
                lp = [[(float(q[0]) - ref[0], float(q[1]) - ref[1], None if q[2] is None else q[2] - ref[2]) for q in project(fw, R)] for R in L]
                cut = lambda R: [v if v[2] is not None else v[:2] for v in R]
                Q = Polygon(cut(lp[0]), [cut(R) for R in lp[1:]])
                w0 = Q.wkt
                r, err = call(ct.polygon_from_local_coords, Q)
                e = {"k": "polyfrom", "err": err, "loc": [as_pairs([full(v) for v in R], U) for R in rings(Q)], "proj": [], "same": Q.wkt == w0, "tol": 20000 if U == MET else 300}
                if not err:
                    e["proj"] = [as_pairs(project(fw, [full(v) for v in R]), U) for R in rings(r)] if hasattr(r, "exterior") else []
                ev.append(e)
    return {"ev": ev}


def box_session(item, rng):
    from shapely.geometry import Polygon
    from seismostats.utils import bounding_box_to_polygon, polygon_to_bounding_box
    u = pick(rng, [1., .5, 2 ** -9])
    gi = lambda x: units(x, u)
    ev = []
    for _ in range(4):
        x, y = sorted(int(v) for v in rng.choice(4001, 2, False) - 2000), sorted(int(v) for v in rng.choice(4001, 2, False) - 2000)
        a = [v * u for v in x + y]
        t = pick(rng, [float, np.float64])
        r, err = call(bounding_box_to_polygon, *[t(v) for v in a], *pick(rng, [(), (4326,)])) if rng.random() < .6 else call(bounding_box_to_polygon, y_max=a[3], x_min=a[0], x_max=a[1], y_min=a[2])
        e = {"k": "box", "b": x + y, "err": err, "ring": [], "back": []}
        if not err:
            e["ring"] = [[gi(v[0]), gi(v[1])] for v in r.exterior.coords]
            b, err = call(polygon_to_bounding_box, r)
            e["err"], e["back"] = err, [gi(v) for v in b] if not err else []
        ev.append(e)
        P = simple_polygon(rng, int(rng.integers(3, 900)))
        if len(set(P)) >= 3:
            z = () if rng.random() < .7 else (2.,)
            b, err = call(polygon_to_bounding_box, Polygon([(v[0] * u, v[1] * u) + z for v in P]))
            ev.append({"k": "bounds", "P": [list(v) for v in P], "err": err, "got": [gi(v) for v in b] if not err else []})
    return {"ev": ev}


def main(run):
    cases = []
    for g, v in run.n([(2, 4), (1, 4)], [(2, 5), (3, 4)]):
        cases += run.model("MCSpatial", cfg(constants={"G": str(g), "MaxV": str(v)}, invariants=["ScanIsSpec", "WindingAgrees", "HalfPlanes", "StartIndifferent", "DirectionIndifferent",
                                            "AxesIndifferent", "CutIndifferent", "VerticesInside", "WithinBox", "Emit"]), label=f"polygons on a {g + 1}x{g + 1} lattice, up to {v} vertices")
    faults = ["none", "added", "altitude kept", "altitude invented", "axes swapped", "reference moved", "reference not projected", "always projected", "altitude of reference dropped",
              "subtracted back", "altitude lost", "polygon not moved", "polygon altitude kept"]
    master = ["new", "to", "from", "toalt", "fromalt", "to", "poly", "newref", "toalt", "from", "poly", "fromalt"]
    hc = run.model("MCCoords", cfg(constants={"Faults": "{" + ",".join(f'"{f}"' for f in faults) + "}", "MaxSteps": str(run.n(3, 4)), "Master": "<<" + ",".join(f'"{s}"' for s in master) + ">>"},
                                   invariants=["NoFalseAlarm", "ReferenceKept", "RoundTrip", "MasterShowsAll", "Emit"]))
    rng = run.rng
    cases = [cases[int(i)] for i in rng.permutation(len(cases))[:run.n(400, 6000)]]
    sess = run.pmap(lattice_select, cases, 1) + run.pmap(random_select, range(run.n(1500, 25000)), 2)
    run.judge("TraceSpatial", sess, label="selection")
    hs = sorted({tuple(c["h"]) for c in hc})
    items = [master] * run.n(300, 4000) + [list(pick(rng, hs)) for _ in range(run.n(300, 4000))]
    run.judge("TraceSpatial", run.pmap(local_session, items, 3), label="local coordinates")
    run.judge("TraceSpatial", run.pmap(box_session, range(run.n(100, 1500)), 4), label="bounding boxes")
    run.assumptions += ["polygons are simple; their vertices and the events are exact binary fractions of a degree",
                        "the map projection itself is taken from pyproj, applied point by point outside the library"]
