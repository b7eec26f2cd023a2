"""C21 - Kijko-Smit and Weichert estimates."""
import contextlib, datetime, io
import numpy as np
import pandas as pd
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
LN10 = math.log(10)
START = time.time()


def fix(x, s):
    x = float(x)
    return NOTINT - 1 if not math.isfinite(x) else NOTINT if abs(x) * s > 2e9 else int(round(x * s))


def times_of(years, rng):
    out = []
    for y in years:
        k = int(rng.integers(4))
        out.append(datetime.datetime(int(y), 1, 1) if k == 0 else datetime.datetime(int(y), 12, 31, 23, 59, 59, 999999) if k == 1
                   else datetime.datetime(int(y), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24))))
    k = int(rng.integers(6))
    dt = [np.datetime64(t, "us") for t in out]
    if k == 0:
        return out
    if k == 1:
        return dt
    if k == 2:
        return np.array(dt)
    if k == 3:
        return np.array(dt).astype("datetime64[s]")
    if k == 4:
        return pd.Series(np.array(dt), index=np.arange(len(dt)) + 3)
    return pd.DatetimeIndex(np.array(dt))


def event(rng, op, T, E, D, last, nb=0, off=0., grp=0):
    """magnitudes in half bins; off: shift of the magnitude zero"""
    from seismostats.analysis.bvalue.kijko_smit import estimate_b_kijko_smit
    from seismostats.analysis.bvalue.weichert import estimate_b_weichert
    mags = np.round(np.array([e["m"] for e in E]) * D / 2 + off, 8)
    tab = np.array([[round(r["m"] * D / 2 + off, 8), r["y"]] for r in T], dtype=float)
    times = times_of([e["y"] for e in E], rng)
    mode = pick(rng, ["b_value", "beta"])
    kw = {}
    if last:
        kw["last_year"] = pick(rng, [int(last), float(last), np.int64(last)])
    if mode == "beta" or rng.random() < .3:
        kw["b_parameter"] = mode
    if D != .1 or rng.random() < .3:
        kw["delta_m"] = D
    keep = snap(mags, times, tab)
    with contextlib.redirect_stdout(io.StringIO()):
        if op == "ks":
            r, err = call(estimate_b_kijko_smit, mags, times, tab, **kw)
        else:
            mx = round(tab[0, 0] + nb * D + pick(rng, [0, 0, .4 * D]), 8)
            r, err = call(estimate_b_weichert, mags, times, tab, mx, **kw)
    e = {"op": op, "T": T, "E": E, "last": int(last or 0), "nb": nb, "grp": grp, "err": err, "finite": False, "inv": BAD, "n1000": 0, "yr1000": 0, "info100": 0, "off": 0, "key": [], "unchanged": same(keep, snap(mags, times, tab)),
         "pw": [], "lo": [], "hi": []}
    s, tol = (1e4, .02) if len(E) <= 40 else (1e3, .04)
    w = lambda x, s=s: [int(round(s * math.exp(-min(max(x, -.3), 50) * k))) for k in range(nb)]
    e["steep"], e["flat"] = w(1.2), w(.03)
    if err:
        return e
    r = [float(v) for v in r]
    beta, std, rate, a = r[0], r[1], r[2], r[-1]
    if mode == "b_value":
        beta, std = beta * LN10, std * LN10
    e["finite"] = all(math.isfinite(v) for v in (beta, rate, a)) and 0 < rate and 0 < abs(beta) * D < 50
    if not e["finite"]:
        return e
    e["key"] = [fix(v, 1e5) for v in (beta, std, rate, a)]
    e["yr1000"] = fix(1 / rate, 1e3)
    if std > 0 and op == "ks":
        e["n1000"] = fix((beta / std) ** 2, 1e3)
    sh = (a - math.log10(rate) - beta / LN10 * tab[0, 0]) / (beta / LN10 * D / 2)
    e["off"] = int(round(sh)) if abs(sh - round(sh)) < 1e-3 else -1
    if op == "ks":
        e["inv"] = rat(2 / (beta * D))
        e["pw"] = [fix(math.exp(-beta * D / 2 * k), 1e5) for k in range(T[-1]["m"] - T[0]["m"] + 1)] if beta > 0 else []
    else:
        if r[3] > 0:
            e["n1000"] = fix((rate / r[3]) ** 2, 1e3)
        if std > 0:
            e["info100"] = fix(1 / (std * D) ** 2, 100)
        e.update(pw=w(beta * D, 1e4), lo=w(beta * D - tol), hi=w(beta * D + tol))
    return e


def quickly_solved(T, E, nb, rng):
    """the optimiser of Weichert's method takes seconds where the likelihood has no maximum: few of these"""
    rows = [[r for r in T if r["m"] < e["m"]] for e in E]
    b = [(e["m"] - 1 - T[0]["m"]) // 2 for e, r in zip(E, rows) if r and r[-1]["y"] <= e["y"]]
    yrs = [2020 - [r for r in T if r["m"] <= T[0]["m"] + 2 * i][-1]["y"] for i in range(nb)]
    even = sum(i * y for i, y in enumerate(yrs)) / max(1, sum(yrs))
    return (bool(b) and 0 < sum(b) / len(b) < .95 * even) or rng.random() < .02


def variants(rng, op, T, E, D, last, nb, off, ys, ms):
    """the catalogue itself, shuffled, without and with further events outside the table"""
    if not last and max(e["y"] for e in E) <= T[0]["y"]:
        last = 2020
    if time.time() - START > 240:
        return []          # estimates that do not converge take minutes in total; what was recorded so far is judged
    if op == "w" and not quickly_solved(T, E, nb, rng):
        return []
    ev = [event(rng, op, T, E, D, last, nb, off, 1)]
    if last:
        ev.append(event(rng, op, T, [E[i] for i in rng.permutation(len(E))], D, last, nb, off, 1))
        inside = lambda e: any(True for r in T if r["m"] < e["m"]) and [r for r in T if r["m"] < e["m"]][-1]["y"] <= e["y"]
        out = [{"m": int(pick(rng, ms)), "y": int(pick(rng, ys))} for _ in range(6)]
        out = [e for e in out if not inside(e)]
        E2 = E + out
        ev.append(event(rng, op, T, [E2[i] for i in rng.permutation(len(E2))], D, last, nb, off, 1))
        kept = [e for e in E if inside(e)]
        if kept:
            ev.append(event(rng, op, T, kept, D, last, nb, off, 1))
    return ev


def main(run):
    tabs = "{<<[m |-> 1, y |-> 2000]>>, <<[m |-> 1, y |-> 2000], [m |-> 3, y |-> 1990]>>, <<[m |-> 1, y |-> 2000], [m |-> 5, y |-> 2000], [m |-> 7, y |-> 1980]>>, <<[m |-> 1, y |-> 2005], [m |-> 3, y |-> 1990], [m |-> 5, y |-> 1970]>>}"
    base = {"Tables": tabs, "Ms": "{0, 2, 3, 4, 6, 8}", "Ys": "{1969, 1970, 1985, 1990, 1999, 2000, 2010}", "MaxN": 2}
    inv = ["Combined", "SameEvents", "OrderFree", "Tiles", "Monotone", "OneRoot"]
    cases = run.model("MCUnequal", cfg(constants=base, invariants=inv + ["Emit"]), "up to 2 events, 4 tables")
    b3 = base | {"Ms": "{0, 2, 4, 8}", "Ys": "{1969, 1985, 1990, 2000}", "MaxN": 3}
    if run.thorough:
        b3["Ms"], b3["Ys"] = base["Ms"], "{1969, 1970, 1985, 1990, 2000, 2010}"
    run.model("MCUnequal", cfg(constants=b3, invariants=inv), "up to 3 events")

    def small(c, rng):
        D = pick(rng, [.1, .5, 1., .2, .25])
        off = round(pick(rng, [0, 0, 40]) * D, 8)
        last = pick(rng, [2020, 2020, None])
        ev = variants(rng, "ks", c["t"], c["e"], D, last, 0, off, [1950, 1975, 1995, 2010], [-2, 0, 2, 4])
        if all(e["m"] % 2 == 0 for e in c["e"]):
            ev += variants(rng, "w", c["t"], c["e"], D, 2020, int(pick(rng, [4, 6])), off, [1950, 1975, 1995, 2010], [-2, 0, 2, 4])[:3]
        return {"ev": ev}
    sessions = run.pmap(small, cases[:: max(1, len(cases) // run.n(500, 4000))], 1)

    def rand(k, rng):
        D = pick(rng, [.1, .1, .5, 1., .2, .25, .05])
        w = k % 2
        nb = int(rng.integers(3, 11))
        nr = int(rng.integers(1, 5))
        ms = sorted(int(x) for x in rng.choice(nb, min(nr, nb), replace=False))
        last = 2020
        span = 55 if w else 400
        ys = sorted((last - int(x) for x in rng.choice(np.arange(3, span), len(ms), replace=rng.random() < .1)), reverse=True)
        T = [{"m": 2 * m + 1, "y": y} for m, y in zip(ms, ys)]
        base = T[0]["m"]
        n = int(rng.integers(1, 40)) if rng.random() < .8 else int(rng.integers(40, 150))
        top = base + 2 * nb - 1
        p = float(rng.uniform(.2, .7))
        E = []
        for _ in range(n):
            m = base + 1 + 2 * (int(rng.geometric(p)) - 1) - 2 * int(rng.integers(0, 2)) * int(rng.random() < .4)
            if m > top:
                m = base + 1
            y = int(pick(rng, ys)) + int(rng.integers(-1, 2)) if rng.random() < .3 else int(rng.integers(last - span - 3, last + 1))
            E.append({"m": int(m), "y": y})
        off = round(int(rng.integers(-2, 60)) * D - base * D / 2 + D / 2, 8)
        if not w and D in (.5, 1., .25) and rng.random() < .5:        # magnitudes at the table's edges
            E = [{"m": e["m"] - int(rng.integers(0, 2)), "y": e["y"]} for e in E]
        use_last = None if rng.random() < .2 else pick(rng, [last, last + int(rng.integers(1, 3))])
        return {"ev": variants(rng, "w" if w else "ks", T, E, D, use_last, nb if w else 0, off, list(range(last - span - 20, last + 1)), [base + 1 + 2 * j for j in range(-3, nb)])}
    sessions += run.pmap(rand, range(run.n(500, 6000)), 2)
    sessions = [s for s in sessions if s["ev"]]
    run.judge("TraceUnequal", sessions, label="Kijko-Smit and Weichert estimates, reordered and with events outside the table")
    run.assumptions += ["table magnitudes ascend and its years do not", "Weichert: table edges lie half a bin below magnitudes; the likelihood is judged where its maximum lies between beta * delta_m of 0.03 and 1.2"]
