"""C08 - a-values."""
from estdrv import *


def main(run):
    s = standard(run, ["aclassic", "apos", "amore"], "all", run.n(900, 6000), run.n(1200, 9000), nmax=10)
    run.judge("TraceEst", s)
    run.assumptions += ["event times pairwise different"]
