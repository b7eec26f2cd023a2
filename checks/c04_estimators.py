"""C04 - complete sample, alignment of the reported data, refusals, no memory of earlier calls."""
from estdrv import *


def main(run):
    rng = run.rng
    kinds = list(CLS)
    cases = models(run, kinds)
    bykind = {k: [x for x in cases if x[0]["kind"] == k] for k in kinds}
    sessions = []
    for k in range(run.n(700, 6000)):
        kind = kinds[k % len(kinds)]
        est = CLS[kind]()
        attrs = ["value", "n"] + (["a_value"] if kind in AK else ["b_value", "beta", "std", "std_beta"])
        evs, r = [read_event(est, a) for a in attrs], {}
        for j in range(int(rng.integers(1, 5))):
            if rng.random() < .5:
                case, D = bykind[kind][int(rng.integers(len(bykind[kind])))]
                c, r = from_case(case, D, rng, hasw=rng.random() < .4), realise(rng, D)
            else:
                dec = bool(rng.random() < .5)
                c = random_calc(rng, kind, dec, nmax=8, bad=.15)
                r = realise(rng, c["D"], dec)
            if all_nan(c):
                continue
            evs.append(calc_event(est, c, r, "sample", std=False))
            if j == 0:
                evs += [read_event(est, "value")]
        sessions.append({"ev": evs})
    run.judge("TraceEst", sessions)
    run.assumptions += ["event times pairwise different", "samples with at least one non-NaN magnitude or empty",
                        "weights of the used events not all zero"]
