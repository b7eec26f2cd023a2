"""C11 - QuakeML import."""
from qml import *
from vh import *

PATHS = [f"{c}/{s}" for c in ("time", "latitude", "longitude", "depth")
         for s in ("value", "uncertainty", "lowerUncertainty", "upperUncertainty", "confidenceLevel")] + ["evaluationMode"] + \
        ["quality/" + q for q in ("associatedPhaseCount", "usedPhaseCount", "associatedStationCount", "usedStationCount", "depthPhaseCount",
                                  "standardError", "azimuthalGap", "secondaryAzimuthalGap", "maximumDistance", "minimumDistance", "medianDistance")]
MPATHS = ["mag/" + s for s in ("value", "uncertainty", "lowerUncertainty", "upperUncertainty", "confidenceLevel")]


def random_doc(rng, nmax):
    doc, tok = [], [1000]

    def new():
        tok[0] += 1
        return tok[0]
    shared = [new() for _ in range(6)]        # identifiers and types used by several events
    types = [new() for _ in range(3)]
    nv = int(rng.integers(3))
    for k in range(int(rng.integers(0, nmax + 1))):
        items, used = [], {"o": [], "m": []}
        allver, allct = int(rng.integers(3)), rng.random() < .6

        def ident(kind):
            if rng.random() < .1:
                return 0
            c = [i for i in shared if i not in used[kind]]
            i = int(c[int(rng.integers(len(c)))]) if c and rng.random() < .6 else new()
            used[kind].append(i)
            return i
        def fields(paths):
            p = [paths[int(j)] for j in rng.permutation(len(paths))[: int(rng.integers(0, len(paths) + 1))]]
            return [[x, new()] for x in p]
        for _ in range(int(rng.integers(0, 4))):
            items.append({"k": "o", "id": ident("o"), "type": 0, "f": fields(PATHS), "ver": -1, "ct": -1})
        for _ in range(int(rng.integers(0, 7))):
            ver = -1 if allver == 0 else int(rng.integers(0, 12)) if allver == 1 else int(rng.integers(-2, 4))
            items.append({"k": "m", "id": ident("m"), "type": 0 if rng.random() < .08 else types[int(rng.integers(3))], "f": fields(MPATHS),
                          "ver": ver if nv else min(ver, 1), "ct": int(rng.integers(0, 40)) if allct else -1})
        items = [items[int(j)] for j in rng.permutation(len(items))]

        def pref(kind):
            r = rng.random()
            if r < .1:
                return 0
            if r < .2 or not used[kind]:
                return int(shared[int(rng.integers(6))])       # may name something of another event only
            return int(used[kind][int(rng.integers(len(used[kind])))])
        doc.append({"id": new(), "type": new() if rng.random() < .8 else 0, "po": pref("o"), "pm": pref("m"), "items": items})
    return doc


def main(run):
    rng = run.rng
    cases = run.model("MCQml", cfg(constants=dict(Types="{0, 5}", Vers="{-1, 1}", MaxItems="1", Splits="TRUE"),
                                   invariants=["ReadsDocument", "CutIsError", "Emit"]), label="every split of every text")
    cases += run.model("MCQml", cfg(constants=dict(Types=run.n("{0, 5}", "{0, 5, 6}"), Vers=run.n("{-1, 1}", "{-1, 1, 2}"), MaxItems="2", Splits=run.n("FALSE", "TRUE")),
                                    invariants=["ReadsDocument", "CutIsError", "Emit"]), label="documents with two items")
    routes = ["str", "file", "resp"]
    sessions = []
    for k, i in enumerate(rng.permutation(len(cases))[: run.n(1200, 12000)]):
        ev = cases[i]["ev"]
        sessions.append({"ev": [parse_event([ev], rng, run.work, routes[k % 3], bool(rng.random() < .7), bool(rng.random() < .7))]})
    for k in range(run.n(900, 9000)):
        doc = random_doc(rng, int(rng.choice([1, 2, 4, 9])))
        pad = 0
        if k % 5 == 0:
            pad = 65536 - int(rng.integers(250, 1500))     # puts the reader's block boundary somewhere into the document
        sessions.append({"ev": [parse_event(doc, rng, run.work, routes[k % 3], bool(rng.random() < .8), bool(rng.random() < .7), pad=pad)]})
    for k in range(run.n(500, 5000)):
        doc = random_doc(rng, 4)
        cut = ["end", "lastevent", "malformed"][k % 3]
        if cut == "lastevent" and not doc:
            cut = "end"
        sessions.append({"ev": [parse_event(doc, rng, run.work, routes[(k // 3) % 3], True, True, cut=cut)]})
    run.judge("TraceQml", sessions)
    run.assumptions += ["identifiers are unique per kind within an event", "a criterion (version, creation time) present for only some "
                        "magnitudes of a type leaves the choice open", "element names carry no namespace prefix"]
