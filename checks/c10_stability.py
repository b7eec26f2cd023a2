"""C10 - completeness by b-value stability."""
from mcdrv import *


def main(run):
    rng = run.rng
    cases = run.model("MCStab", cfg(constants=dict(Lo="-2", Hi="4", MaxLen=run.n(4, 5), Ranges="{1, 2, 3, 4}"),
                                    invariants=["Agrees", "CandidatesCover", "Emit"]), label="all samples over 7 bins")
    sessions = []
    US = [0.1, 0.5, 0.2, 0.25, 1.0, 0.05]
    for k, i in enumerate(rng.permutation(len(cases))[: run.n(700, 5000)]):
        c = cases[i]
        u = US[k % len(US)]
        off = int(rng.choice([0, 0, 2, 5, 11, -3]))
        m = [int(v) + off for v in rng.permutation(c["m"])]
        evs = [stab(m, u, None, c["rng"], c["stop"], "stub", ["array", "series"][k % 2])]
        cand = [int(x) + off for x in rng.integers(-3, 5, int(rng.integers(1, 5)))]
        evs.append(stab(m, u, cand, c["rng"], c["stop"], "stub"))
        sessions.append({"ev": evs, "u": u})
    for k in range(run.n(500, 5000)):
        u = US[int(rng.integers(len(US)))]
        n = int(rng.integers(2, 60))
        off = offset(rng, u, -20, 15)
        m = [off + int(x) for x in np.minimum(rng.geometric(.3, n) - 1, 14)]
        r = int(rng.integers(1, 8))
        cand = None if k % 2 else [off + int(x) for x in rng.permutation(16)[: int(rng.integers(1, 12))]]
        if k % 4 == 0:
            cand = sorted(cand)
        sessions.append({"ev": [stab(m, u, cand, r, bool(rng.random() < .5), "stub", ["array", "series"][k % 2])], "u": u})
    for k in range(run.n(400, 4000)):
        u = US[int(rng.integers(len(US)))]
        n = int(rng.integers(3, 7))
        off = offset(rng, u, -20, 5)
        m = [off + int(x) for x in rng.integers(0, 5, n)]
        r = int(rng.choice([1, 2, 2, 3]))
        cand = None if k % 2 else [off + int(x) for x in rng.permutation(5)[: int(rng.integers(1, 4))]]
        sessions.append({"ev": [stab(m, u, cand, r, bool(rng.random() < .5), "utsu")], "u": u})
    run.judge("TraceMc", sessions)
    run.assumptions += ["magnitudes and candidates are multiples of the bin width, stability range a whole number of bins",
                        "a ratio of exactly one is not judged where rounding decides it"]
