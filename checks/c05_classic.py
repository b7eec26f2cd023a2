"""C05 - classic and Utsu b-values, weights, Shi-Bolt uncertainty."""
from estdrv import *


def main(run):
    s = standard(run, ["classic", "utsu"], "value", run.n(700, 4000), run.n(900, 8000))
    run.judge("TraceEst", s)
    run.assumptions += ["weights of the used events not all zero"]
