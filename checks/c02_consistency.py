"""C02 - consistency of a sample with a bin width."""
import math
import numpy as np
from vh import cfg, call
from gen import *
from seismostats.utils import binning_test

# unit, width in units, next larger power of ten in units
GRIDS = [(0.1, 1, 10), (0.2, 1, 5), (0.5, 1, 2), (0.05, 2, 20), (0.01, 1, 10), (0.02, 1, 5), (0.25, 1, 4), (1.0, 1, 10),
         (0.05, 1, 2), (0.05, 4, 20), (0.005, 20, 200), (0.005, 10, 20), (0.001, 100, 1000), (0.001, 10, 100),
         (1e-6, 100000, 1000000), (1e-8, 10000000, 100000000), (1e-8, 1000000, 10000000), (0.5, 4, 20), (2.0, 1, 5), (1e-4, 1, 10),
         (1e-4, 2, 10), (1e-5, 1, 10), (1e-6, 1, 10)]


def next_power(delta):
    return 10.0 ** (math.floor(math.log10(delta) + 1e-12) + 1)


# width zero: unit, smallest power of ten above the tolerance in units, tolerance, offsets clear of the tolerance
D16 = 1 / 65536
ZERO = [(0.1, 1, None, []), (0.05, 1, None, []), (0.001, 1, None, []), (1.0, 1, None, []), (5.0, 1, None, []), (D16, 16, None, list(range(1, 16))),
        (D16, 16, 1e-15, list(range(1, 16))), (1e-8, 1000, 3e-6, list(range(350, 651))), (0.001, 10, 2e-3, [3, 4, 5, 6, 7]), (0.01, 10, 0.02, [3, 4, 5, 6, 7]), (0.1, 10, 0.3, [4, 5, 6]),
        (1e-8, 100, 2e-7, list(range(30, 71)))]


def event(vs, u, w, big, larger, kind, tol=None):
    a = container(mags(vs, u), kind)
    fp = fingerprint(a)
    kw = {} if larger is None else {"check_larger_binning": larger}
    if tol is not None:
        kw["tolerance"] = tol
    r, err = call(binning_test, a, mag(w, u), **kw)
    return {"op": "test", "m": [int(v) for v in vs], "w": w, "big": big, "larger": True if larger is None else larger,
            "err": err, "res": bool(r) if not err else False, "kept": fingerprint(a) == fp}


def main(run):
    for u, w, big in GRIDS:
        assert abs(next_power(w * u) - big * u) < 1e-12 * big, (u, w, big)
    cases = run.model("MCCons", cfg(constants={"Vals": "-2..6", "W": "2", "Big": "4", "MaxLen": run.n(3, 4)},
                      invariants=["Decision", "ShiftInvariant", "OrderInvariant", "ZeroWidth", "Emit"]), label="growing samples, width 2, coarser 4")
    rng = run.rng
    sessions = []
    pick = rng.permutation(len(cases))[: run.n(700, 5000)]
    for k, i in enumerate(pick):
        # MC grid (W = 2 units, coarser = 4 units): realised as 0.05 / 0.1 shifted by whole units
        vs = cases[i]["m"]
        off = int(rng.integers(-60, 100))
        vs = [v if v == NANV else v + off for v in vs]
        evs = [event(vs, 0.025, 2, 4, lg, ["array", "list", "series"][k % 3]) for lg in (True, False, None)]
        sessions.append({"ev": evs})
    for u, w, big in GRIDS:
        for rep in range(run.n(30, 300)):
            n = int(rng.integers(1, 14))
            lim = int(7.5 / u) if u <= 1 else 40
            lo = int(rng.integers(-int(2 / u) if u <= 1 else -20, max(1, lim // 2)))
            step = [w, big, w, 1][rep % 4]
            top = max(1, min((lim - lo) // step, 400 if rep % 2 else 4000000))
            vs = [lo + step * int(v) for v in rng.integers(0, top, n)]
            mode = rep % 5
            if mode == 1 and n > 1:      # one value slightly off the grid
                vs[int(rng.integers(n))] += 1
            if mode == 2:
                vs[int(rng.integers(n))] = NANV
                if all(v == NANV for v in vs):
                    vs.append(lo)
            if mode == 3:
                vs = [vs[0]] * n
            if mode == 4 and n > 1 and w % 2 == 0:
                vs[int(rng.integers(n))] += w // 2
            evs = [event(vs, u, w, big, lg, ["array", "list", "series"][rep % 3]) for lg in (True, False, None)]
            sh = int(rng.integers(1, 5))
            perm = rng.permutation(len(vs))
            evs.append(event([vs[i] if vs[i] == NANV else vs[i] + sh for i in perm], u, w, big, None, "array"))
            evs.append(event([vs[i] for i in perm] + [vs[0]], u, w, big, True, "array"))
            sessions.append({"ev": evs, "u": u})
    for u, g, tol, offs in ZERO:
        for rep in range(run.n(30, 300)):
            n = int(rng.integers(1, 14))
            top = max(2, min(int(4 / u / g), 4000000))
            step = int(rng.choice([1, 1, 10, 100])) if top > 200 else 1
            base = int(rng.integers(-top // 2, top // 2)) * g + (int(rng.choice(offs)) if offs and rep % 3 == 0 else 0)
            vs = [base + g * step * int(v) for v in rng.integers(0, max(2, top // step // 2), n)]
            if rep % 4 == 1:                              # the range is a power of ten of the grid
                vs = [base, base + g * step] + [base] * (n // 4)
            if offs and rep % 2:
                vs[int(rng.integers(len(vs)))] += int(rng.choice(offs))
            if rep % 5 == 2:
                vs.insert(int(rng.integers(len(vs) + 1)), NANV)
            sessions.append({"ev": [event(vs, u, 0, g, lg, ["array", "list", "series"][rep % 3], tol) for lg in (True, None, False)], "u": u})
    for k in range(run.n(12, 60)):                    # long samples, one value near the end decides
        u, w, big = [(0.05, 2, 20), (0.025, 2, 4), (0.1, 1, 10), (0.005, 20, 200)][k % 4]
        n = int(rng.choice([1200, 3000]))
        step = big if k % 3 == 0 else w
        vs = [step * int(v) for v in rng.integers(0, max(2, int(5 / u) // step), n)]
        if k % 3 != 1:
            vs[-1 - int(rng.integers(4))] += w if k % 3 == 0 else max(1, w // 2)
        sessions.append({"ev": [event(vs, u, w, big, lg, ["array", "list", "series"][k % 3]) for lg in (True, False)], "u": u})
    sessions.append({"ev": [event([], 0.1, 1, 10, lg, k) for lg in (True, False) for k in ("array", "list")]})
    run.judge("TraceBin", sessions)
