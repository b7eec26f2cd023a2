"""Driver for QuakeML import: renders abstract documents as XML text in many layouts,
parses them with the real code and maps the returned texts back to their numbers."""
import gzip, io as _io, os
import numpy as np
import requests, urllib3
from vh import call

STD = {"time", "latitude", "longitude", "depth"}
SUFF = ["", "_uncertainty", "_lowerUncertainty", "_upperUncertainty", "_confidenceLevel", "_magnitudeID"]
SHAPES = ["t%d", "smi:x/y#%d", "A & B <c> %d", "ünï cöde %d", "tab\tx %d", "]]> %d", "multi\nline %d", "quo\"te's %d",
          "inner   spaces %d", "&amp; %d", "-%d.5e-3", "%d", "漢 %d", "100%% %d", "a_b_%d", "<b/>%d", "2022-01-01T00:00:%dZ"]


class Words:
    """a bijection between small numbers and texts"""
    def __init__(self, rng):
        self.rng, self.w, self.back = rng, {}, {}

    def __call__(self, t, attr=False, plain=False):
        if t not in self.w:
            while True:
                s = (SHAPES[1] if plain else SHAPES[int(self.rng.integers(len(SHAPES)))]) % t
                if not (attr and ("\t" in s or "\n" in s)) and s not in self.back:
                    break
            self.w[t], self.back[s] = s, t
        return self.w[t]


class Layout:
    def __init__(self, rng):
        self.rng = rng
        self.ws = int(rng.integers(4))
        self.esc = int(rng.integers(4))
        self.noise = rng.random() < .6

    def gap(self):
        g = ["", "\n  ", "\t", "\n\n \t "][self.ws]
        if self.noise and self.rng.random() < .1:
            g += "<!-- a <comment> & more -->" + g
        return g

    def text(self, s):
        r, out = self.rng, []
        k = self.esc if self.esc < 3 else int(r.integers(3))
        if k == 1 and "]]>" not in s:
            body = "<![CDATA[" + s + "]]>"
        else:
            for ch in s:
                if ch in "&<>":
                    out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;"}[ch])
                elif k == 2 and ch not in " \t\n" and r.random() < .2:
                    out.append("&#x%x;" % ord(ch))
                else:
                    out.append(ch)
            if self.noise and len(out) > 2 and r.random() < .1:
                out.insert(int(r.integers(1, len(out))), "<!-- split -->")
            body = "".join(out)
        return (["", " ", "\n   ", "\t"][self.ws] if r.random() < .7 else "") + body + ("" if r.random() < .5 else ["", " ", "\n ", "\n"][self.ws])

    def attr(self, s):
        q = '"' if self.rng.random() < .6 else "'"
        s = s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("'", "&apos;")
        return q + s + q


NOISE_EV = ["<description><type>felt report</type><text>some &amp; text</text></description>",
            "<creationInfo><agencyID>X</agencyID><version>99</version></creationInfo>",
            "<amplitude publicID='amp/1'><genericAmplitude><value>3</value></genericAmplitude><type>ML</type></amplitude>",
            "<pick publicID='pick/1'><time><value>2020-01-01T00:00:00Z</value></time><evaluationMode>automatic</evaluationMode></pick>",
            "<stationMagnitude publicID='sm/1'><mag><value>9.9</value></mag><type>Mxx</type></stationMagnitude>",
            "<focalMechanism publicID='fm/1'><momentTensor><derivedOriginID>o</derivedOriginID></momentTensor></focalMechanism>",
            "<comment><text>type</text></comment>", "<typeCertainty>known</typeCertainty>", "<preferredFocalMechanismID>fm/1</preferredFocalMechanismID>"]
NOISE_O = ["<arrival publicID='arr/1'><pickID>p</pickID><phase>P</phase><distance>1.5</distance></arrival>", "<timeFixed>0</timeFixed>",
           "<creationInfo><version>77</version></creationInfo>", "<comment><text>origin comment</text><creationInfo><version>5</version></creationInfo></comment>",
           "<originUncertainty><horizontalUncertainty>5</horizontalUncertainty></originUncertainty>", "<evaluationStatus>final</evaluationStatus>",
           "<quality><groundTruthLevel>GT5</groundTruthLevel></quality>"]
NOISE_M = ["<stationCount>12</stationCount>", "<comment><text>magnitude</text></comment>", "<methodID>m</methodID>",
           "<stationMagnitudeContribution><stationMagnitudeID>sm/1</stationMagnitudeID><weight>1</weight></stationMagnitudeContribution>",
           "<comment><creationInfo><version>1000</version><creationTime>2099-01-01T00:00:00Z</creationTime></creationInfo></comment>",
           "<azimuthalGap>3</azimuthalGap>", "<evaluationMode>manual</evaluationMode>"]


def ctime(ct, rng):
    s = "2022-01-03T07:%02d:%02d" % (ct // 600, (ct // 10) % 60)
    f = ct % 10
    if f or rng.random() < .5:
        s += "." + str(f) + "0" * int(rng.integers(0, 6))
    return s + ("Z" if rng.random() < .8 else "")


def render(doc, words, lay, rng, pad=0):
    def leaf(tag, body, raw=False):
        return f"{lay.gap()}<{tag}>{body if raw else lay.text(body)}</{tag}>"

    def noise(pool):
        return [lay.gap() + pool[int(i)] for i in rng.permutation(len(pool))[: int(rng.integers(0, 4))]] if lay.noise else []

    def group(fields):
        out, groups = [], {}
        for p, t in fields:
            h, _, r = p.partition("/")
            if r:
                groups.setdefault(h, []).append(leaf(r, words(t)))
            else:
                out.append(leaf(h, words(t)))
        for h, ls in groups.items():
            out.append(f"{lay.gap()}<{h}>{''.join(ls[int(i)] for i in rng.permutation(len(ls)))}{lay.gap()}</{h}>")
        return out

    def item(it):
        tag = "origin" if it["k"] == "o" else "magnitude"
        parts = group(it["f"]) + noise(NOISE_O if tag == "origin" else NOISE_M)
        if it["type"]:
            parts.append(leaf("type", words(it["type"])))
        ci = []
        if it["k"] == "m":
            if it["ver"] >= 0:
                ci.append(leaf("version", ["%d", "%d.0", "0%d", "%d.00"][int(rng.integers(4))] % it["ver"]))
            elif it["ver"] == -2:
                ci.append(leaf("version", ["beta", "v3", "1.0.2"][int(rng.integers(3))]))
            if it["ct"] >= 0:
                ci.append(leaf("creationTime", ctime(it["ct"], rng)))
        if ci:
            if rng.random() < .4:
                ci.append(leaf("author", "someone"))
            parts.append(f"{lay.gap()}<creationInfo>{''.join(ci[int(i)] for i in rng.permutation(len(ci)))}</creationInfo>")
        a = f" publicID={lay.attr(words(it['id'], attr=True))}" if it["id"] else ""
        return f"{lay.gap()}<{tag}{a}>{''.join(parts[int(i)] for i in rng.permutation(len(parts)))}{lay.gap()}</{tag}>"

    def event(ev):
        its = [item(i) for i in ev["items"]]
        oth = noise(NOISE_EV)
        if ev["type"]:
            oth.append(leaf("type", words(ev["type"])))
        if ev["po"]:
            oth.append(leaf("preferredOriginID", words(ev["po"], attr=True)))
        if ev["pm"]:
            oth.append(leaf("preferredMagnitudeID", words(ev["pm"], attr=True)))
        # items keep their order, the others go anywhere between them
        for o in oth:
            its.insert(int(rng.integers(0, len(its) + 1)), o)
        a = f" publicID={lay.attr(words(ev['id'], attr=True))}"
        x = " catalog:eventid='e1' xmlns:catalog='http://c'" if lay.noise and rng.random() < .3 else ""
        return f"{lay.gap()}<event{x if rng.random() < .5 else ''}{a}>{''.join(its)}{lay.gap()}</event>"

    head = '<?xml version="1.0" encoding="UTF-8"?>' + lay.gap()
    padding = "<!-- " + "x" * pad + " -->" if pad else ""
    return (head + '<q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">'
            + padding + lay.gap() + f"<eventParameters publicID='ep'>{(lay.gap() + '<description>catalogue</description>') if lay.noise else ''}"
            + "".join(event(e) for e in doc) + lay.gap() + "</eventParameters>" + lay.gap() + "</q:quakeml>" + lay.gap())


class Body(_io.BytesIO):
    """delivers at most a few bytes per read"""
    def __init__(self, data, n):
        super().__init__(data)
        self.n = n

    def read(self, amt=-1):
        return super().read(min(self.n, amt) if amt is not None and amt >= 0 else self.n) if self.n else super().read(amt)


def response(data, rng, status=200):
    hdr = {}
    if rng.random() < .3:
        data = gzip.compress(data)
        hdr["Content-Encoding"] = "gzip"
    r = requests.Response()
    r.status_code = status
    r.headers.update(hdr)
    r.raw = urllib3.HTTPResponse(body=Body(data, 0), headers=hdr, status=status, preload_content=False, decode_content=False)
    return r


def keyname(key, words, types):
    for t in sorted(types, key=lambda t: -len(words(t))):
        p = "magnitude_" + words(t)
        if key.startswith(p) and key[len(p):] in SUFF:
            return f"magnitude_#{t}{key[len(p):]}"
    return key


STDKEYS = {"magnitude", "magnitude_type", "magnitude_uncertainty", "magnitude_lowerUncertainty", "magnitude_upperUncertainty",
           "magnitude_confidenceLevel", "magnitudeID"}


def observe(rec, words, types):
    out = []
    for k, v in rec.items():
        if v is None or (isinstance(v, float) and v != v):
            continue
        kk = k if k in STDKEYS else keyname(k, words, types)
        out.append([kk, words.back.get(v, -1) if isinstance(v, str) else -2])
    return out


def parse_event(doc, rng, work, route, all_, quality, cut=None, pad=0):
    from seismostats.io import parser as P
    words, lay = Words(rng), Layout(rng)
    text = render(doc, words, lay, rng, pad=pad)
    types = {i["type"] for e in doc for i in e["items"] if i["type"]}
    data = text.encode("utf-8")
    if cut == "end":
        lo = data.index(b"<q:quakeml") + 12
        hi = data.rindex(b"</q:quakeml>") + 11
        data = data[: int(rng.integers(lo, hi))]
    elif cut == "lastevent":         # ends right after a complete event
        pos = [i + 8 for i in range(len(data)) if data.startswith(b"</event>", i)]
        data = data[: pos[int(rng.integers(len(pos)))]]
    elif cut == "malformed":
        k = int(rng.integers(4))
        tag = [b"</eventParameters>", b"</origin>", b"</event>", b"</magnitude>"][k]
        if tag not in data:
            tag = b"</eventParameters>"
        i = data.rindex(tag)
        data = data[:i] + [b"<unclosed>", b"</wrong>", b" & ", b"<a b=c>"][int(rng.integers(4))] + data[i:]
    if route == "file":
        p = os.path.join(work, "doc.xml")
        with open(p, "wb") as f:
            f.write(data)
        out, err = call(P.parse_quakeml_file, p, all_, quality)
    elif route == "resp":
        out, err = call(P.parse_quakeml_response, response(data, rng), all_, quality)
    else:
        out, err = call(P.parse_quakeml, data.decode("utf-8", errors="ignore"), all_, quality)
    return {"op": "parse", "doc": doc, "all": bool(all_), "quality": bool(quality), "cut": cut is not None, "err": err,
            "out": [observe(r, words, types) for r in out] if not err else []}
