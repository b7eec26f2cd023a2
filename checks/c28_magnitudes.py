"""C28 - conversion of local to moment magnitudes."""
import numpy as np
import pandas as pd
from vh import *

pick = lambda rng, l: l[int(rng.integers(len(l)))]
TYPES = ["ML", "Ml", "ml", "MLhc", "MLv", "M_L", "Mw", "MW", "mw", "Mwc", "Mww", "MwMwc", "mB", "mb", "Ms", "MS", "Md", "M", "", "MLw", "Mlw", "lw", "Mw_converted", "local", "ML ", "L", "w", "W", "MLcorr"]


def scaled(x):
    try:
        f = float(x)
    except Exception:
        return NOTINT - 2
    if math.isnan(f):
        return NOTINT - 1
    k = f * 1e8
    return int(round(k)) if abs(k) < 2.1e9 else NOTINT


def start_rows(rng, case):
    if case is not None:
        return [{"ty": case["ty"], "k": case["k"], "den": 100}]
    rows = []
    for _ in range(int(rng.integers(1, 7))):
        den = pick(rng, [10, 100])
        k = int(rng.integers(-40, 121)) if den == 10 else int(rng.integers(-400, 401))
        if rng.random() < .1:
            k = NOTINT - 1
        rows.append({"ty": list(pick(rng, TYPES)), "k": k, "den": den})
    return rows


def result(r, given):
    """recorded result of one conversion"""
    if r is None:
        return {"none": True, "conv": False, "ty": [], "v": 0}
    try:
        t, v = list(r)
        return {"none": False, "conv": str(t) != given, "ty": list(str(t)), "v": scaled(v)}
    except Exception:
        return {"none": False, "conv": True, "ty": ["?"], "v": NOTINT}


def session(case, rng):
    from seismostats import Catalog
    from seismostats.analysis.magnitudes import apply_edwards
    rows = start_rows(rng, case)
    ev = [{"op": "start", "rows": rows}]
    val = lambda r: np.nan if r["k"] == NOTINT - 1 else r["k"] / r["den"]
    t, m = ["".join(r["ty"]) for r in rows], [val(r) for r in rows]
    whole = [r["k"] % r["den"] == 0 for r in rows]
    conv = {10: 10000000, 100: 1000000}
    mode = pick(rng, ["call", "call", "apply", "loop"])
    for _ in range(int(rng.integers(1, 4))):
        keep = (list(t), [float(x).hex() for x in m])
        if mode == "call":
            def fn():
                out = []
                for a, b, w in zip(t, m, whole):
                    b = int(b) if w and b == b and b == int(b) and rng.random() < .5 else np.float64(b) if rng.random() < .5 else b
                    out.append(apply_edwards(a, b))
                return out
        else:
            cat = Catalog({"magnitude": m, "mag_type": t})
            if mode == "loop":
                fn = lambda: [apply_edwards(row["mag_type"], row["magnitude"]) for _, row in cat.iterrows()]
            else:
                def fn():
                    r = pd.DataFrame(cat).apply(lambda x: apply_edwards(x["mag_type"], x["magnitude"]), axis=1)
                    if isinstance(r, pd.DataFrame):
                        return [None if not isinstance(row[0], str) else row for row in r.itertuples(index=False, name=None)]
                    return list(r)
        r, err = call(fn)
        got = [] if err else [result(x, a) for x, a in zip(r, t)]
        ev.append({"op": "convert", "err": err, "got": got, "same": keep == (list(t), [float(x).hex() for x in m])})
        if err or any(g["v"] in (NOTINT, NOTINT - 2) for g in got):
            break
        nt, nm = [], []
        for a, b, g, x in zip(t, m, got, r):
            nt.append(a if g["none"] else str(list(x)[0]))
            nm.append(b if g["none"] else float(list(x)[1]))
        t, m = nt, nm
    return {"ev": ev}


def main(run):
    inv = ["KindIsSpec", "ValueIsSpec", "UnitsAgree", "Monotone", "Idempotent", "LetterCase", "Emit"]
    L = '{"m", "l", "w", "L", "W", "b"}'
    cases = run.model("MCMagnitudes", cfg(constants={"Letters": L, "MaxLen": "3", "Mags": "{-110, 0, 230}"}, invariants=inv), label="types")
    cases += run.model("MCMagnitudes", cfg(constants={"Letters": '{"L"}', "MaxLen": "1", "Mags": run.n("-100..400", "-400..400")}, invariants=inv), label="values")
    run.judge("TraceMagnitudes", run.pmap(session, cases + [None] * run.n(1500, 20000)))
    run.assumptions += ["magnitudes are multiples of 0.1 up to 12 or of 0.01 up to 4"]
