"""Driver for the a- and b-value estimators: executes specification level calculations
(integer magnitudes / times / weights) on the real estimators and records what they report."""
import math, datetime
import numpy as np, pandas as pd
from vh import call, rat, units, NOTINT
from gen import *
from seismostats.analysis import (ClassicBValueEstimator, UtsuBValueEstimator, BPositiveBValueEstimator,
                                  BMorePositiveBValueEstimator, ClassicAValueEstimator, APositiveAValueEstimator,
                                  AMorePositiveAValueEstimator, estimate_a, estimate_b)

CLS = {"classic": ClassicBValueEstimator, "utsu": UtsuBValueEstimator, "bpos": BPositiveBValueEstimator,
       "bmore": BMorePositiveBValueEstimator, "aclassic": ClassicAValueEstimator, "apos": APositiveAValueEstimator,
       "amore": AMorePositiveAValueEstimator}
BK, AK, PAIR = ("classic", "utsu", "bpos", "bmore"), ("aclassic", "apos", "amore"), ("bpos", "bmore", "apos", "amore")
TK = ["float", "int", "s", "ns", "D", "series", "list", "h"]
LN10 = math.log(10)


def full(c):
    """fills in the defaults of a calculation record"""
    d = dict(kind="classic", m=[], mc=0, D=4, dmc=4, hasw=False, w=[], wd=1, hast=False, t=[], hasb=False, bt=4,
             hasref=False, mref=0, hassf=False, sf=[1, 1])
    d.update(c)
    return d


def times_of(t, kind):
    if kind == "float":
        return np.array(t, dtype=float) * 0.5 + 3
    if kind == "int":
        return np.array(t, dtype=int)
    base = np.datetime64("2021-03-01T00:00:00")
    if kind == "D":
        return (base.astype("datetime64[D]") + np.array(t, dtype=int)).astype("datetime64[D]")
    a = base + np.array(t, dtype=int) * np.timedelta64(3, "h")
    if kind == "list":
        return [datetime.datetime(2021, 3, 1) + datetime.timedelta(hours=3 * int(x)) for x in t]
    if kind == "series":
        return pd.Series(a.astype("datetime64[ns]"), index=np.arange(len(t)) * 3 + 1)
    return a.astype("datetime64[%s]" % kind)


def times_back(a, kind):
    out = []
    for x in (a if a is not None else []):
        if kind == "float":
            out.append(units(float(x) - 3, 0.5))
        elif kind == "int":
            out.append(int(x))
        else:
            h = (pd.Timestamp(x) - pd.Timestamp("2021-03-01")) / pd.Timedelta(hours=24 if kind == "D" else 3)
            out.append(units(h, 1))
    return out


def args_of(c, r):
    """specification record + realisation -> keyword arguments of calculate"""
    u = r["u"]
    kw = {"magnitudes": container(mags(c["m"], u), r.get("ctn", "array")), "mc": mag(c["mc"], u),
          "delta_m": mag(c["D"], u) if c["D"] else r.get("zero", 0.0)}
    if c["hasw"]:
        kw["weights"] = container(np.array(c["w"], dtype=float) / c["wd"], r.get("wctn", "array"))
        if r.get("wint") and c["wd"] == 1:
            kw["weights"] = np.array(c["w"], dtype=int)
    if c["kind"] in PAIR:
        if c["hast"]:
            kw["times"] = times_of(c["t"], r.get("tk", "float"))
        if not (r.get("defdmc") and c["dmc"] == c["D"]):
            kw["dmc"] = mag(c["dmc"], u)
    if c["kind"] in AK:
        if c["hasb"]:
            kw["b_value"] = math.log10(2) / (u * c["bt"])
        elif c["kind"] == "amore":
            kw["b_value"] = None
        if c["hasref"]:
            kw["m_ref"] = mag(c["mref"], u)
        if c["hassf"]:
            kw["scaling_factor"] = c["sf"][0] / c["sf"][1]
    return kw


def project(c, b, u):
    """b- or a-value -> exact transform of the specification"""
    b = float(b)
    with np.errstate(all="ignore"):
        if c["kind"] in AK:
            return rat(np.power(10.0, b) if not math.isinf(b) else b, 200000)
        if c["kind"] == "utsu" or c["D"] == 0:
            return rat(np.float64(1) / (b * LN10 * u) if b != 0 else math.inf, 200000)
        return rat(np.power(10.0, b * c["D"] * u), 200000)


def snapshot(est, c):
    """raw observables (used for the comparison with a fresh estimator)"""
    d = {"v": float(est.value), "idx": [int(i) for i in np.asarray(est.idx)], "mags": [float(x) for x in est.magnitudes],
         "n": int(est.n)}
    if c["kind"] in BK:
        d["w"] = None if est.weights is None else [float(x) for x in est.weights]
    if c["kind"] in PAIR:
        d["t"] = None if est.times is None else [str(x) for x in est.times]
    return d


def observe(est, c, r, judge, std=False):
    u = r["u"]
    idx = [int(i) + 1 for i in np.asarray(est.idx)]
    ob = {"idx": idx, "mags": [units(x, u) for x in est.magnitudes], "n": int(est.n), "wts": [], "times": [],
          "val": [9, 0], "same": True, "std": [9, 0]}
    if c["hasw"] and c["kind"] in BK:
        ob["wts"] = [units(x * c["wd"], 1) for x in est.weights]
    if c["hast"] and c["kind"] in PAIR:
        ob["times"] = times_back(est.times, r.get("tk", "float"))
    v = est.value
    if judge in ("value", "all"):
        ob["val"] = project(c, v, u)
        eq = lambda a, b: bool(np.isclose(a, b, rtol=1e-9, atol=0, equal_nan=True)) or a == b
        if c["kind"] in AK:
            ob["same"] = eq(est.a_value, v)
        else:
            same = eq(est.b_value, v) and eq(est.beta, v * LN10)
            if std and c["kind"] != "bmore" and len(idx) > 1 and not math.isinf(v) and not math.isnan(v):
                s, sb = float(est.std), float(est.std_beta)
                same = same and (eq(sb, s * LN10))
                with np.errstate(all="ignore"):
                    ob["std"] = rat((s / (LN10 * v * v) / u) ** 2, 2000000)
            ob["same"] = bool(same)
    return ob


BLANK = {"idx": [], "mags": [], "n": 0, "wts": [], "times": [], "val": [9, 0], "same": True, "std": [9, 0]}


def calc_event(est, c, r, judge, std=True, fresh=True):
    c = full(c)
    kw = args_of(c, r)
    fp = {k: fingerprint(v) for k, v in kw.items()}
    pos = {k: kw.pop(k) for k in ("magnitudes",)}
    _, err = call(est.calculate, pos["magnitudes"], **kw)
    kw.update(pos)
    e = {"op": "calc", "c": c, "judge": judge, "err": err, "fresh": True, **BLANK}
    if not err:
        e.update(observe(est, c, r, judge, std))
        if fresh:
            est2 = CLS[c["kind"]]()
            kw2 = args_of(c, r)
            _, err2 = call(est2.calculate, **kw2)
            e["fresh"] = err2 == "" and fingerprint(snapshot(est2, c)) == fingerprint(snapshot(est, c))
    e["kept"] = all(fingerprint(kw[k]) == fp[k] for k in fp)
    return e


def read_event(est, attr):
    _, err = call(lambda: getattr(est, attr))
    return {"op": "read", "attr": attr, "err": err}


def fn_event(c, r, param="b_value", rstd=False, rn=False):
    """estimate_a / estimate_b"""
    c = full(c)
    kw = args_of(c, r)
    cls = CLS[c["kind"]]
    e = {"op": "fn", "c": c, "val": [9, 0], "same": True, "n": -1, "param": param, "rstd": rstd, "rn": rn}
    if c["kind"] in AK:
        res, e["err"] = call(estimate_a, kw.pop("magnitudes"), method=cls, **kw)
        if not e["err"]:
            e["val"] = project(c, res, r["u"])
        return e
    res, e["err"] = call(estimate_b, kw.pop("magnitudes"), b_parameter=param, return_std=rstd, return_n=rn, method=cls, **kw)
    if e["err"]:
        return e
    parts = list(res) if isinstance(res, tuple) else [res]
    if len(parts) != 1 + int(rstd) + int(rn):
        e["same"] = False
        return e
    b = float(parts[0])
    e["val"] = project(c, b / LN10 if param == "beta" else b, r["u"])
    if rn:
        e["n"] = int(parts[-1])
    if rstd and c["kind"] != "bmore":
        est = cls()
        est.calculate(**args_of(c, r))
        s = est.std if param == "b_value" else est.std_beta
        e["same"] = bool(np.isclose(float(parts[1]), float(s), rtol=1e-9, equal_nan=True))
    return e


def all_nan(c):
    return len(c["m"]) > 0 and all(v == NANV for v in c["m"])


DYADIC = [(1.0, 4), (0.5, 4), (0.25, 4), (2.0, 4)]
DECIMAL = [(0.1, 4), (0.2, 4), (0.05, 4), (0.01, 4), (0.3, 4)]


def realise(rng, D, decimal=False):
    tab = DECIMAL if decimal else DYADIC
    delta, k = tab[int(rng.integers(len(tab)))]
    return {"u": delta / k if not decimal else {0.1: 0.025, 0.2: 0.05, 0.05: 0.0125, 0.01: 0.0025, 0.3: 0.075}[delta],
            "ctn": ["array", "list", "series"][int(rng.integers(3))], "wctn": ["array", "list", "series"][int(rng.integers(3))],
            "tk": TK[int(rng.integers(len(TK)))], "defdmc": bool(rng.random() < .5), "wint": bool(rng.random() < .3),
            "zero": 0.0 if rng.random() < .5 else 0}


def from_case(case, D, rng, hasw=False, nob=False):
    """a case printed by the model -> calculation record (dyadic realisation, bt = 1)"""
    c = full(dict(case, D=D, bt=1))
    n = len(c["m"])
    if hasw and c["kind"] in BK:
        c.update(hasw=True, w=[int(x) for x in rng.integers(0, 4, n)], wd=int(rng.choice([1, 2, 4])))
    if c["kind"] in AK:
        c["hasb"] = True
        if rng.random() < .4:
            c.update(hasref=True, mref=c["mc"] + int(rng.integers(-5, 6)))
        if rng.random() < .4:
            c.update(hassf=True, sf=[[2, 1], [10, 1], [1, 3], [5, 2], [1, 1]][int(rng.integers(5))])
    return c


def random_calc(rng, kind, decimal, nmax=12, bad=0.05, D=None, nan=0.2):
    """random calculation; decimal bins keep every quantity on the sample's grid"""
    n = int(rng.integers(0, nmax + 1))
    D = D if D is not None else (0 if (not decimal and rng.random() < .25) else 4)
    top = int(rng.choice([3, 6] if kind == "amore" else [3, 6, 12]))
    if D == 0:
        m = [int(x) for x in rng.integers(-3, top * 2, n)]
        mc = int(rng.integers(-4, top))
        dmc = int(rng.choice([0, 0, 1, 2, 5]))
        bt = 1
    else:
        off = int(rng.integers(0, 4)) + 4 * int(rng.integers(-8, 12))
        m = [off + 4 * int(x) for x in rng.integers(-2, top, n)]
        if decimal:
            mc = off + 4 * int(rng.integers(-3, top))
            dmc = 4 * int(rng.choice([0, 1, 1, 1, 2, 3]))
            bt = 4
        else:
            mc = off + int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 8]))
            dmc = int(rng.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 8, 9]))
            if kind == "amore":
                mc, dmc = off + 4 * int(rng.integers(0, 3)), 4 * int(rng.integers(0, 3))
            bt = 4 if kind == "amore" else 2 if (mc - off) % 2 == 0 and dmc % 2 == 0 else 1
        if rng.random() < bad and n > 1:
            m[int(rng.integers(n))] += int(rng.integers(1, 4))
    if rng.random() < nan and n > 1:
        m[int(rng.integers(n))] = NANV
    c = full(dict(kind=kind, m=m, mc=mc, D=D, dmc=dmc if kind in PAIR else (D or 0), bt=bt))
    if kind in BK and rng.random() < .4:
        c.update(hasw=True, w=[int(x) for x in rng.integers(0 if rng.random() < .3 else 1, 4, n)], wd=int(rng.choice([1, 2, 4])))
        if rng.random() < bad:
            if rng.random() < .5:
                c["w"] = c["w"] + [1]
            elif n:
                c["w"][int(rng.integers(n))] = -1
    if kind in PAIR and (kind in AK or rng.random() < .6):
        c.update(hast=True, t=[int(x) for x in rng.permutation(n * 2 + 1)[:n]])
    if kind in PAIR and rng.random() < bad:
        c["dmc"] = -int(rng.integers(1, 5))
    if kind in AK:
        c["hasb"] = bool(kind == "amore" or rng.random() < .7)
        if rng.random() < bad:
            c["hasb"] = False
        if rng.random() < .4:
            c.update(hasref=True, mref=mc + bt * int(rng.integers(-5, 6)))
        if rng.random() < .4:
            c.update(hassf=True, sf=[[2, 1], [10, 1], [1, 3], [5, 2], [1, 1]][int(rng.integers(5))])
    return c


def long_calc(rng, kind, n):
    """long sequence: one large event, a slowly growing swarm, a larger event near the end; a few duplicates and NaN"""
    top = 24 if kind in BK else 5
    base = np.sort(rng.integers(0, top, n)) + rng.integers(0, 3, n)
    m = [4 * int(x) for x in base]
    m[0], m[1], m[n - 1 - int(rng.integers(0, 5))] = 4 * (top + 3), 4 * (top + 2), 4 * (top + 5)
    for i in rng.integers(1, n, 3):
        m[int(i)] = NANV
    mc = 4 * int(rng.choice([-2, 0, 1]))
    c = full(dict(kind=kind, m=m, mc=mc, D=4, dmc=4 * int(rng.choice([0, 1, 1, 2])) if kind in PAIR else 4, bt=4))
    if kind in BK and rng.random() < .5:
        c.update(hasw=True, w=[int(x) for x in rng.integers(1, 3, n)], wd=1)
    if kind in PAIR:
        t = np.arange(n)
        c.update(hast=True, t=[int(x) for x in t])
        if rng.random() < .6:                       # not in time order
            p = rng.permutation(n)
            for key in ("m", "t", "w"):
                if c[key]:
                    c[key] = [c[key][int(i)] for i in p]
    if kind in AK:
        c["hasb"] = True
    return c


def long_sessions(run, kinds, judge, count):
    out = []
    for k in range(count):
        kind = kinds[k % len(kinds)]
        n = {"amore": 140, "apos": 300}.get(kind, [1300, 260, 2100, 700][k // len(kinds) % 4])
        c = long_calc(run.rng, kind, n)
        r = realise(run.rng, 4, k % 2 == 0)
        out.append({"ev": [calc_event(CLS[kind](), c, r, judge, std=False, fresh=False)], "r": r})
    return out


MC_CONST = dict(Vals="{-2, 0, 4, 8, -1000000}", Mcs="{0, 1}", D="4", Dmcs="{0, 4, 6}")
MC_INV = ["StepwiseAgrees", "InSample", "NothingLost", "PositiveWithinMore", "OrderIrrelevant", "ShiftIrrelevant",
          "WeightMeaning", "APosAtLeastPairs"]


def models(run, kinds):
    from vh import cfg
    ks = "{" + ", ".join('"%s"' % k for k in kinds) + "}"
    cases = run.model("MCEst", cfg(constants=dict(MC_CONST, MaxLen=3, Kinds=ks), invariants=MC_INV + ["Emit"]),
                      label="all samples up to 3 events, bins of 4 units")
    cont = run.model("MCEst", cfg(constants=dict(Vals="{-1, 0, 1, 3, -1000000}", Mcs="{0, 1}", D="0", Dmcs="{0, 1, 2}",
                                                 MaxLen=3, Kinds=ks), invariants=MC_INV + ["Emit"]),
                     label="all samples up to 3 events, continuous")
    if run.thorough:
        run.model("MCEst", cfg(constants=dict(Vals="{0, 4, 8, 12}", Mcs="{0, 4}", D="4", Dmcs="{0, 4, 8}", MaxLen=4,
                                              Kinds=ks), invariants=MC_INV), label="all samples up to 4 events")
    return [(c, 4) for c in cases if not all_nan(c)] + [(c, 0) for c in cont if not all_nan(c)]


def standard(run, kinds, judge, ncase, nrand, fn=True, nmax=12):
    """sessions shared by the value checks"""
    rng = run.rng
    out = []
    cases = models(run, kinds)
    for k, i in enumerate(rng.permutation(len(cases))[:ncase]):
        case, D = cases[i]
        c = from_case(case, D, rng, hasw=k % 3 == 0)
        r = realise(rng, D)
        evs = [calc_event(CLS[c["kind"]](), c, r, judge, fresh=False)]
        if fn and k % 3 == 0:
            evs.append(fn_event(c, r, ["b_value", "beta"][k % 2], bool(rng.random() < .5) and c["kind"] != "bmore", bool(rng.random() < .5)))
        out.append({"ev": evs, "r": r})
    for k in range(nrand):
        dec = k % 2 == 0
        c = random_calc(rng, kinds[k % len(kinds)], dec, nmax=nmax)
        if all_nan(c):
            continue
        r = realise(rng, c["D"], dec)
        evs = [calc_event(CLS[c["kind"]](), c, r, judge, fresh=False)]
        if fn and k % 3 == 0:
            evs.append(fn_event(c, r, ["b_value", "beta"][k % 2], bool(rng.random() < .5) and c["kind"] != "bmore", bool(rng.random() < .5)))
        out.append({"ev": evs, "r": r})
    out += long_sessions(run, kinds, judge, run.n(4 * len(kinds), 15 * len(kinds)))
    return out
