"""C09 - completeness by Kolmogorov-Smirnov test."""
from mcdrv import *

KD = [[k, 97] for k in (2, 11, 17, 23, 31, 38, 47, 59, 66, 80)]
MODEL = dict(Qs="{<<2, 1>>, <<3, 2>>, <<1, 0>>}", Thresholds="{<<1, 10>>, <<1, 2>>, <<9, 10>>}",
             Kd="<<" + ", ".join("<<%d, 97>>" % k[0] for k in KD) + ">>")
INV = ["SearchAgrees", "SmallestPasses", "DegenerateNeverPasses", "DistanceInUnit", "RepeatShift"]


def qsize(n, top, q):
    return n * max(q) ** (top + 1)


def main(run):
    rng = run.rng
    cases = run.model("MCMc", cfg(constants=dict(MODEL, Top=3, MaxLen=3), invariants=INV + ["Emit"]), label="all samples up to 3 events over 4 bins")
    if run.thorough:
        run.model("MCMc", cfg(constants=dict(MODEL, Top=4, MaxLen=4), invariants=INV), label="all samples up to 4 events over 5 bins")
    sessions = []
    US = [0.1, 0.5, 0.2, 0.05, 1.0, 0.01]

    def kds(n):
        k = int(rng.choice([4, 5, 8, 10]))
        return [[[int(x), 97] for x in rng.integers(1, 90, k)] for _ in range(n)]
    for k, i in enumerate(rng.permutation(len(cases))[: run.n(500, 3000)]):
        c = cases[i]
        u = US[k % len(US)]
        off = offset(rng, u, -20, 4)
        m = [int(v) + off for v in rng.permutation(c["m"])]
        cand = [int(x) + off for x in range(4)]
        q = c["q"]
        evs = [ks_search(m, u, cand, c["thr"], c["stop"], "given", q, [], [KD] * 4, ["array", "series"][k % 2])]
        for mc in (off, min(m)):
            a = [v for v in m if v >= mc]
            evs.append(kstest(a, mc, q, u, kd=kds(1)[0], kind=["array", "list"][k % 2] if False else "array")[0])
        sessions.append({"ev": evs, "u": u})
    # larger samples, function level: weights, ties of the reference distances, samples starting above mc
    for k in range(run.n(500, 5000)):
        n = int(rng.integers(0, 25))
        top = int(rng.integers(1, 7))
        q = [[2, 1], [3, 2], [3, 1], [4, 3], [10, 1], [1, 0]][int(rng.integers(6))]
        while q[1] and qsize(n * 3, top, q) > 1000000:
            top -= 1
        if top < 1:
            continue
        u = US[int(rng.integers(len(US)))]
        mc = offset(rng, u, -20, 8)
        m = [mc + int(x) for x in np.minimum(rng.geometric(.5, n) - 1 + int(rng.integers(0, 2)), top)]
        w = [int(x) for x in rng.integers(1, 4, n)] if rng.random() < .3 else None
        if w is not None and rng.random() < .5 and n > 2:
            w[int(rng.integers(n))] = 0
        e, d = kstest(m, mc, q, u, kd=kds(1)[0], w=w, kind=["array", "series"][k % 2])
        evs = [e]
        if d is not None and e["d"][1] not in (0,) and n > 1 and e["d"][1] < 100000:
            # the observed distance itself among the references counts as "at least as large"
            ref = [d, d, 0.0, 1.0, d / 2]
            r, err = call(ks_test_gr, mags(m, u), mag(mc, u), float(mag(1, u)), fl(q) / u, ks_ds=np.array(ref),
                          **({"weights": np.array(w, dtype=float)} if w is not None else {}))
            dd = e["d"]
            evs.append(dict(e, err=err, kd=[dd, dd, [0, 1], [1, 1], [dd[0], 2 * dd[1]]], d=rat(r[1], 5000000) if not err else [9, 0],
                            p=rat(r[0]) if not err else [9, 0], nref=5, nwant=5))
        if k % 5 == 0 and n > 1 and min(m) >= mc and (w is None):
            evs.append(kstest(m, mc, q, u, n=int(rng.choice([20, 50])))[0])
        sessions.append({"ev": evs, "u": u})
    # samples of thousands of events
    for k in range(run.n(9, 45)):
        n = [2500, 6000, 1100, 9000][k % 4]
        q = [[2, 1], [2, 1], [3, 2], [3, 1]][k // 2 % 4]
        top = {2: 5, 3: 3}[q[0]]
        u = US[k % len(US)]
        mc = offset(rng, u, -20, 8)
        m = [mc + int(x) for x in np.minimum(rng.geometric(.5, n) - 1, top)]
        w = [int(x) for x in rng.integers(1, 4, n)] if k % 3 == 2 else None
        sessions.append({"ev": [kstest(m, mc, q, u, kd=kds(1)[0], w=w)[0]], "u": u})
    # candidate searches with estimated b-values
    for k in range(run.n(500, 5000)):
        n = int(rng.integers(2, 7))
        top = int(rng.integers(1, 4))
        u = US[int(rng.integers(len(US)))]
        off = offset(rng, u, -20, 4)
        m = [off + int(x) for x in rng.integers(0, top + 1, n)]
        method = ["classic", "bpos", "bmore", "given"][k % 4]
        t = [int(x) for x in rng.permutation(20)[:n]] if method in ("bpos", "bmore") and rng.random() < .6 else []
        default = rng.random() < .3
        cand = None if default else [off + int(x) for x in rng.integers(-1, top + 2, int(rng.integers(1, 6)))]
        if cand is not None and k % 7 != 0 and t == []:
            pass
        if cand is None and len(set(m)) == 1:
            continue
        nc = (max(m) - min(m) + 1) if cand is None else len(set(cand))
        kdl = kds(nc)
        thr = [[1, 10], [1, 4], [1, 2], [1, 5], [3, 4], [1, 1]][int(rng.integers(6))]
        q = [[2, 1], [3, 2], [3, 1]][int(rng.integers(3))] if method == "given" else [2, 1]
        if cand is not None and kdl is not None:
            pass
        sessions.append({"ev": [ks_search(m, u, cand, thr, bool(rng.random() < .5), method, q, t, kdl, ["array", "series"][k % 2])], "u": u})
    # simulated reference distances: internal consistency
    for k in range(run.n(60, 400)):
        n = int(rng.integers(2, 7))
        top = int(rng.integers(1, 4))
        u = [0.1, 0.5, 0.2][k % 3]
        off = int(rng.integers(-10, 20))
        m = [off + int(x) for x in rng.integers(0, top + 1, n)]
        if len(set(m)) == 1:
            continue
        cand = None if k % 2 else [off + int(x) for x in rng.permutation(top + 1)]
        sessions.append({"ev": [ks_search(m, u, cand, [1, 10], bool(k % 3), ["classic", "bpos"][k % 2], [2, 1], [], None, n=20)], "u": u})
    run.judge("TraceMc", sessions)
    run.assumptions += ["magnitudes and candidates are multiples of the bin width, no NaN",
                        "reference distances per candidate are given in ascending candidate order"]
