"""C07 - b-more-positive and the search for the next larger event."""
from estdrv import *
from seismostats.analysis import find_next_larger


def main(run):
    rng = run.rng
    s = standard(run, ["bmore"], "all", run.n(900, 6000), run.n(900, 8000))
    for k in range(run.n(400, 4000)):
        dec = k % 2 == 0
        c = random_calc(rng, "bmore", dec, nmax=14, bad=0, nan=0)
        c.update(hast=False, t=[], hasw=False, w=[], mc=-100000)
        r = realise(rng, c["D"], dec)
        dmc = None if r["defdmc"] and c["dmc"] == c["D"] else mag(c["dmc"], r["u"])
        res, err = call(find_next_larger, mags(c["m"], r["u"]), mag(c["D"], r["u"]), dmc)
        s.append({"ev": [{"op": "next", "c": c, "err": err, "res": [] if err else [int(x) + 1 if x else 0 for x in res]}]})
    for k in range(run.n(6, 30)):
        c = long_calc(rng, "bmore", int(rng.choice([300, 1500, 2500])))
        c.update(hast=False, t=[], hasw=False, w=[], mc=-100000, m=[0 if v == NANV else v for v in c["m"]])
        r = realise(rng, c["D"], k % 2 == 0)
        res, err = call(find_next_larger, mags(c["m"], r["u"]), mag(c["D"], r["u"]), mag(c["dmc"], r["u"]))
        s.append({"ev": [{"op": "next", "c": c, "err": err, "res": [] if err else [int(x) + 1 if x else 0 for x in res]}]})
    run.judge("TraceEst", s)
    run.assumptions += ["event times pairwise different", "weights of the used events not all zero"]
