"""C20 - simulated and dithered magnitudes."""
import numpy as np
import pandas as pd
from vh import *
from sigdrv import snap, same

pick = lambda rng, l: l[int(rng.integers(len(l)))]
EPS = 1e-9


def hist(x, lo, w, top):
    """<<cell, count>>: whole widths w between lo and the value; the upper bound itself belongs to the last cell"""
    x = np.asarray(x, dtype=float).ravel()
    ok = np.isfinite(x)
    pos = (x[ok] - lo) / w
    c = np.floor(pos + EPS).astype("int64")
    if top:
        c = np.where(np.abs(pos - top) <= EPS * max(1, top), top - 1, c)
    u, n = np.unique(np.clip(c, -10 ** 6, 10 ** 6), return_counts=True)
    return [[int(a), int(b)] for a, b in zip(u, n)], int((~ok).sum())


def main(run):
    base = {"MaxN": 3, "MaxCell": 5, "Ks": "{0, 1, 3, 4}", "Ds": "{1, 2}"}
    inv = ["BinCountsKept", "BinsFromFirst", "LawOk", "SqrtOk"]
    cases = run.model("MCSimulate", cfg(constants=base, invariants=inv + ["Emit"]), "up to 3 draws of up to 5 cells, binned and dithered")
    if run.thorough:
        run.model("MCSimulate", cfg(constants=base | {"MaxN": 4, "Ds": "{1, 2, 3}"}, invariants=inv), "up to 4 draws")

    def dither_event(rng, ks, D, c0, h, law=0):
        from seismostats.utils.simulate_distributions import dither_magnitudes
        m = c0 + np.array(ks) * D
        m = np.round(m, 10)
        arg = pick(rng, [m, list(m), pd.Series(m, index=np.arange(len(m)) + 4)])
        b = math.log10(2) / h
        keep = snap(arg)
        r, err = call(dither_magnitudes, arg, D, b)
        u, n = np.unique(ks, return_counts=True)
        e = {"op": "dither", "D": str(D), "c0": str(c0), "given": [[int(a), int(c)] for a, c in zip(u, n)], "err": err, "hist": [], "len": 0, "law": bool(law), "K": max(law, 1), "part": [0] * max(law, 1), "distinct": True, "unchanged": same(keep, snap(arg))}
        if not err:
            r = np.asarray(r, dtype=float)
            e["len"] = int(r.size)
            pos = np.nan_to_num((r - (c0 - D / 2)) / D, nan=-9999.25, posinf=-8888.25, neginf=-7777.25)
            # a value on the border of two bins may belong to either
            c = np.floor(pos)
            border = np.abs(pos - np.round(pos)) < EPS
            have = {int(a): int(k) for a, k in zip(u, n)}
            for i in np.where(border)[0]:
                hi = int(round(pos[i]))
                c[i] = hi if have.get(hi, 0) > np.sum(c[~border] == hi) else hi - 1
            uu, nn = np.unique(c, return_counts=True)
            e["hist"] = [[int(a), int(k)] for a, k in zip(uu, nn)]
            frac = np.where(border, np.abs(pos - c), pos - np.floor(pos))      # position within the bin the value counts for
            e["part"] = [int(np.sum(frac < j / e["K"])) for j in range(1, e["K"] + 1)]
            e["distinct"] = bool(len(np.unique(r)) == len(r) or len(r) < 2)
        return e

    def small(c, rng):
        ev = []
        for D, c0 in [pick(rng, [(.1, 1.), (.1, -.2), (1, -1.), (.2, 3.4), (.01, .5), (.1, -.05), (.5, -.75)])]:
            ks = [int(x) for x in c["b"]] + [0, 1]      # binned to D and to nothing larger
            ev.append(dither_event(rng, ks, D, c0, D / 2 * 2 ** float(rng.integers(-2, 4))))
        return {"ev": ev}
    sessions = run.pmap(small, cases if run.thorough else cases[:: max(1, len(cases) // 500)], 1)

    def dither(k, rng):
        D = pick(rng, [.1, .2, .5, 1., .01, .25])
        c0 = round(float(rng.integers(-min(30, int(4 / D)), min(60, max(1, int(3 / D))))) * D + pick(rng, [0, 0, 0, D / 2, -D / 2, .3 * D]), 10)
        N = int(rng.integers(2, 400))
        law = int(pick(rng, [2, 3, 4])) if k % 3 == 0 else 0
        ks = rng.geometric(.3, N) - 1
        ks = np.concatenate([ks[ks * D + c0 < 7], [0, 1, 3]])
        h = D / law if law else D * float(pick(rng, [.05, .3, 1, 5, 100, -2]))
        if law:
            ks = rng.permutation(np.concatenate([np.repeat(ks, 8)]))
        ks = rng.permutation(ks)
        return {"ev": [dither_event(rng, ks, D, c0, h, law)]}
    sessions += run.pmap(dither, range(run.n(300, 4000)), 2)

    def sim(k, rng):
        from seismostats.utils.simulate_distributions import simulate_magnitudes, simulate_magnitudes_binned
        ev = []
        for _ in range(3 if k >= 40 else 1):
            n = int(pick(rng, [0, 1, 2, 10, 600, 2000])) if k >= 40 else 300000
            law = n >= 600
            binned = rng.random() < .6
            d = int(pick(rng, [1, 2]))
            K = 0 if rng.random() < .4 else int(rng.integers(1, 7))
            arr = rng.random() < .3
            bad = rng.random() < .04
            mode = "beta" if rng.random() < .5 else "b_value"
            if binned:
                if d == 2 and K:
                    K = 2 * ((K + 1) // 2) - 1           # the maximum is a bin centre
                elif K:
                    d = 2
                    K = 2 * ((K + 1) // 2) - 1
                D = float(pick(rng, [.1, .2, 1., .5, .01, .25]))
                mc = round(int(rng.integers(-40, 90)) * D, 10)
                if K and rng.random() < .4:
                    mc = round(-(K - 1) // 2 * D, 10)    # maximum of zero
                h = D / d
                top = round(mc + (K - 1) // 2 * D, 10) if K else None
                lo = mc - D / 2
            else:
                h = float(pick(rng, [.3, .1, .05, .02, 1., .0125]))
                mc = float(pick(rng, [0., 1., -1., 2.35, 5., 8., -3.5, 9.]))
                if K and rng.random() < .3:
                    mc = -K * h
                top = (0. if abs(mc + K * h) < 1e-12 else mc + K * h) if K else None
                lo = mc
            beta = math.log(2) / h
            argb = beta if mode == "beta" else beta / math.log(10)
            hs = [h]
            if arr:
                hs = [h, h]
                argb = np.full(n, argb)
            keep = snap(argb)
            kw = {}
            if K:
                kw["mag_max"] = pick(rng, [top, np.float64(top), int(top) if top == int(top) else top])
            m = pick(rng, [mc, np.float64(mc), int(mc) if mc == int(mc) else mc])
            if binned:
                if bad:
                    kw["b_parameter"] = "c"
                elif mode == "beta" or rng.random() < .3:
                    kw["b_parameter"] = mode
                r, err = call(simulate_magnitudes_binned, n, argb, m, D, **kw)
            elif rng.random() < .5:
                bad = False
                r, err = call(simulate_magnitudes, n, argb if mode == "beta" else argb * math.log(10), m, **kw)
            else:
                bad = False
                r, err = call(simulate_magnitudes_binned, n, argb, m, 0, b_parameter=mode, **kw)
            e = {"op": "sim", "n": n, "refuse": bool(bad), "err": err, "len": 0, "odd": 0, "hist": [], "top": 0, "offgrid": 0, "law": bool(law), "K": K, "d": d if binned else 1, "unchanged": same(keep, snap(argb))}
            if not err:
                r = np.asarray(r, dtype=float)
                e["len"] = int(r.size) if r.ndim == 1 else -1
                if binned:
                    j = (r - mc) / D
                    good = np.isfinite(j)
                    e["offgrid"] = int(np.sum(np.abs(j[good] - np.round(j[good])) > 1e-6))
                    e["top"] = (K - 1) // 2 + 1 if K else 0
                    e["hist"], e["odd"] = hist(np.where(good, mc + np.round(np.where(good, j, 0)) * D, np.nan), lo, D, e["top"])
                else:
                    e["top"] = K
                    e["hist"], e["odd"] = hist(r, lo, h, K)
            ev.append(e)
        return {"ev": ev}
    sessions += run.pmap(sim, range(run.n(900, 9000)), 3)

    def mixed(k, rng):                     # one slope per magnitude
        from seismostats.utils.simulate_distributions import simulate_magnitudes, simulate_magnitudes_binned
        n = 2400
        h = np.array([.1, .2, .4])[rng.integers(0, 3, n)]
        K = int(rng.integers(0, 2))
        mc = float(pick(rng, [0, 2, -.4, 7]))
        top = None if not K else mc + .4 * K
        f = pick(rng, [lambda: simulate_magnitudes(n, np.log(2) / h, mc, top), lambda: simulate_magnitudes_binned(n, np.log10(2) / h, mc, 0, top), lambda: simulate_magnitudes_binned(n, np.log(2) / h, mc, 0, mag_max=top, b_parameter="beta")])
        r, err = call(f)
        ev = []
        for x in (.1, .2, .4):
            sel = h == x
            KK = int(round(.4 * K / x))
            e = {"op": "sim", "n": int(sel.sum()), "refuse": False, "err": err, "len": 0, "odd": 0, "hist": [], "top": KK, "offgrid": 0, "law": True, "K": KK, "d": 1, "unchanged": True}
            if not err:
                r = np.asarray(r, dtype=float)
                ok = r.shape == (n,)
                e["len"] = int(sel.sum()) if ok else -1
                e["hist"], e["odd"] = hist(r[sel], mc, x, KK) if ok else ([], 0)
            ev.append(e)
        return {"ev": ev}
    sessions += run.pmap(mixed, range(run.n(40, 400)), 4)
    run.judge("TraceSimulate", sessions)
    run.assumptions += ["random draws are judged by bounds and by counts within seven standard deviations", "samples to dither are binned to the stated width and not to ten times that width (the library refuses those)"]
