"""C06 - b-positive."""
from estdrv import *


def main(run):
    s = standard(run, ["bpos"], "all", run.n(900, 6000), run.n(900, 8000))
    run.judge("TraceEst", s)
    run.assumptions += ["event times pairwise different", "weights of the used events not all zero"]
