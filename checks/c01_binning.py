"""C01 - magnitude binning."""
import numpy as np, pandas as pd
from vh import cfg, call, units, NOTINT
from gen import *
from seismostats.utils import bin_to_precision
from seismostats import Catalog


def history(m, ops, u):
    """Runs one history of bin_magnitudes calls; returns the recorded events."""
    cats = [base_cat(mags(m, u))]
    cats[0].index = np.arange(len(m))[::-1] * 2 + 1
    cats[0]["extra"] = ["x%d" % i for i in range(len(m))]
    rest0 = fingerprint(pd.DataFrame(cats[0]).drop(columns="magnitude"))

    def snap():
        return [{"mags": tounits(c["magnitude"], u), "delta": 0 if c.delta_m is None else units(c.delta_m, u)} for c in cats]

    def rest():
        return all(fingerprint(pd.DataFrame(c).drop(columns="magnitude")) == rest0 for c in cats)
    ev = [{"op": "new", "m": list(m), "err": "", "objs": snap(), "rest": True}]
    for op in ops:
        o = op["o"]
        if o > len(cats):
            break
        e = {"op": op["op"], "o": o, "w": op["w"], "ip": op["ip"], "err": "", "none": False}
        w = None if op["w"] == 0 else mag(op["w"], u)
        if op["op"] == "set":
            cats[o - 1].delta_m = w
        else:
            if op["ip"]:
                r, e["err"] = call(cats[o - 1].bin_magnitudes, w, True) if op.get("pos") else call(cats[o - 1].bin_magnitudes, delta_m=w, inplace=True)
            else:
                r, e["err"] = call(cats[o - 1].bin_magnitudes, delta_m=w)
            e["none"] = r is None
            if not e["err"] and r is not None:
                if any(r is c for c in cats) or not isinstance(r, Catalog):
                    e["err"] = "returned the original object" if isinstance(r, Catalog) else "not a catalogue"
                cats.append(r)
        e["objs"], e["rest"] = snap(), rest()
        ev.append(e)
    return ev


def main(run):
    sessions = []
    cases = run.model("MCBin", cfg(constants={"Vals": "{-3, -2, -1, 0, 1, 2, 3, 5, -1000000}", "Widths": "{2, 4}", "MaxLen": 2, "MaxOps": 2},
                      invariants=["Nearest", "Idempotent", "Monotone", "LengthsKept", "NaNKept", "Emit"],
                      properties=["CopyUntouched"]), label="binning histories, 2 values, 2 operations")
    if run.thorough:
        run.model("MCBin", cfg(constants={"Vals": "-8..8", "Widths": "{2, 4, 5}", "MaxLen": 1, "MaxOps": 3},
                  invariants=["Nearest", "Idempotent", "Monotone", "LengthsKept", "NaNKept"],
                  properties=["CopyUntouched"]), label="17 values, 3 widths, 3 operations")
    rng = run.rng
    pick = rng.permutation(len(cases))[: run.n(600, 4000)]
    for k, i in enumerate(pick):
        c = cases[i]
        u = [0.05, 0.5, 0.1, 0.01][k % 4]
        sessions.append({"ev": history(c["m"], [dict(o, pos=bool(k % 3 == 0)) for o in c["ops"]], u), "u": u})
    # random longer histories
    for k in range(run.n(150, 1500)):
        u = [0.005, 0.0005][k % 2]
        ws = [2, 4, 10, 20, 40, 50, 100, 200]
        m = [int(v) for v in rng.integers(-800, 1600, rng.integers(1, 12))]
        if rng.random() < .3:
            m[int(rng.integers(len(m)))] = NANV
        ops = [{"op": "set" if rng.random() < .2 else "bin", "o": int(rng.integers(1, 3 + j // 2)) if j else 1,
                "w": int(rng.choice(ws)) if rng.random() < .75 else 0, "ip": bool(rng.random() < .4)} for j in range(6)]
        for o in ops:
            if o["op"] == "set":
                o["ip"], o["w"] = True, o["w"] or 20
            elif rng.random() < .06:
                o["w"] = -20
        # operations refer only to existing objects
        n, good = 1, []
        d = [0]
        for o in ops:
            o["o"] = min(o["o"], n)
            eff = o["w"] if o["w"] else d[o["o"] - 1]
            if o["op"] == "set":
                d[o["o"] - 1] = o["w"]
            elif eff > 0:
                if o["ip"]:
                    d[o["o"] - 1] = eff
                else:
                    n += 1
                    d.append(eff)
            good.append(o)
        sessions.append({"ev": history(m, good, u), "u": u})
    # function level: all ties and boundaries for many widths, plus random fine values
    fn = []
    WS = {0.005: [2, 4, 10, 20, 40, 50, 60, 100, 200, 2000, 1, 3, 7], 0.0001: [100, 1000, 500, 2500, 10000, 3000],
          0.05: [1, 2, 4, 10, 20, 40], 0.00001: [1000, 100, 10000],
          0.0000005: [50, 30, 20, 150, 2500], 0.5: [25, 50, 250, 2, 3, 205], 0.000001: [125, 12, 36, 7]}
    for u, ws in WS.items():
        for w in ws:
            for rep in range(run.n(4, 30)):
                base = rng.integers(-40, 90, 14)
                vs = []
                for b in base:
                    vs += [int(b * w), int(b * w + w // 2), int(b * w - (w // 2)), int(b * w + rng.integers(-w, w + 1))]
                    if w % 2 == 0:
                        vs += [int(b * w + w // 2 - 1), int(b * w + w // 2 + 1)]
                vs = [v for v in vs if abs(v) <= 2_000_000]
                if rep % 2:
                    vs.append(NANV)
                rng.shuffle(vs)
                vs = [int(v) for v in vs][:60]
                fn.append((u, w, vs, ["array", "list", "series"][rep % 3]))
    fn += [(0.1, 0, [1, 2], "array"), (0.1, -1, [1, 2], "list"), (0.1, 1, [], "array"), (0.1, -20, [3], "series")]
    for k in range(run.n(4, 20)):                     # long samples, single values far from the start matter
        u, w = [(0.005, 20), (0.05, 2), (0.0001, 1000), (0.01, 10)][k % 4]
        vs = [int(v) for v in rng.integers(-20 * w, 60 * w, int(rng.choice([1500, 4000])))]
        vs[-1 - int(rng.integers(3))] = NANV
        fn.append((u, w, vs, ["array", "list", "series"][k % 3]))
    # integers and scalars-as-lists
    for u, w, vs, kind in fn:
        a = container(mags(vs, u), kind)
        fp = fingerprint(a)
        r, err = call(bin_to_precision, a, mag(w, u))
        ev = {"op": "binfn", "m": vs, "w": w, "err": err, "res": [] if err else tounits(r, u), "kept": fingerprint(a) == fp}
        sessions.append({"ev": [ev], "u": u, "kind": kind})
    for w in (1, 2, 5, 10):
        vs = [int(v) for v in rng.integers(-50, 50, 30)]
        for a in (list(vs), np.array(vs)):
            r, err = call(bin_to_precision, a, w)
            sessions.append({"ev": [{"op": "binfn", "m": vs, "w": w, "err": err, "res": [] if err else tounits(r, 1), "kept": list(a) == vs}], "u": 1})
    run.judge("TraceBin", sessions)
