"""C13 - event download."""
import gzip, os, threading
from datetime import datetime, timedelta, timezone
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlsplit, parse_qsl
from vh import *

FAULTS = ["500", "503e", "400", "413", "404", "403e", "cut", "cutlen", "reset", "garbage", "429", "502h"]


def xml(ids):
    ev = "".join(f'<event publicID="smi:x/{i}"><preferredOriginID>o{i}</preferredOriginID><preferredMagnitudeID>m{i}</preferredMagnitudeID>'
                 f'<origin publicID="o{i}"><time><value>2020-01-01T00:00:{i % 60:02d}Z</value></time><latitude><value>1</value></latitude>'
                 f'<longitude><value>2</value></longitude><depth><value>3</value></depth></origin>'
                 f'<magnitude publicID="m{i}"><mag><value>{i % 7}</value></mag><type>ML</type></magnitude></event>' for i in ids)
    return ('<?xml version="1.0" encoding="UTF-8"?><q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">'
            f'<eventParameters publicID="p">{ev}</eventParameters></q:quakeml>').encode()


class Server(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    st = None

    def log_message(self, *a):
        pass

    def reply(self, code, body=b"", hdr=(), length=None):
        self.send_response(code)
        for k, v in hdr:
            self.send_header(k, v)
        if length != -1:
            self.send_header("Content-Length", str(len(body) if length is None else length))
        self.end_headers()
        if body:
            self.wfile.write(body)

    def do_GET(self):
        self.close_connection = True
        s = Server.st
        q = parse_qsl(urlsplit(self.path).query, keep_blank_values=True)
        d = dict(q)
        limit, offset = d.get("limit"), d.get("offset")
        k = len(s["log"]) + 1
        s["log"].append([int(limit or 0), int(offset or 0)])
        s["raw"].append([kv for kv in q if kv[0] not in ("limit", "offset")])
        n = s["n"]
        o = int(offset or 1)
        ids = list(range(o, min(n, o + int(limit or n) - 1) + 1))
        f = s["fault"] if k == s["at"] else None
        if f == "404" and d.get("nodata") == "404":
            f = "500"          # that status means "no data" when asked for
        if f:
            s["hit"] = True
        if f in ("500", "400", "413", "404", "429"):
            return self.reply(int(f), b"Error: something went wrong", [("Content-Type", "text/plain")])
        if f in ("503e", "403e"):
            return self.reply(int(f[:3]))
        if f == "502h":
            return self.reply(502, b"<html><body><h1>Bad gateway</h1></body></html>", [("Content-Type", "text/html")])
        if f == "reset":
            self.connection.close()
            return
        if f == "garbage":
            return self.reply(200, b"<html><body>maintenance<br></body></html>")
        if f in ("cut", "cutlen"):
            body = xml(ids or [1])
            cut = body[: body.rindex(b"</event>") + 8] if s["cutat"] % 2 else body[: int(len(body) * s["frac"])]
            return self.reply(200, cut, length=-1 if f == "cut" else len(body))
        if not ids:
            if d.get("nodata") == "404":
                return self.reply(404, b"Error 404: no data" if s["cutat"] % 2 else b"")
            return self.reply(204, length=-1 if s["cutat"] % 3 == 0 else None)
        body, hdr = xml(ids), [("Content-Type", "application/xml")]
        if s["gz"]:
            body = gzip.compress(body)
            hdr.append(("Content-Encoding", "gzip"))
        self.reply(200, body, hdr)


_url = {}


def url():
    if os.getpid() not in _url:
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1,localhost"
        srv = ThreadingHTTPServer(("127.0.0.1", 0), Server)
        srv.daemon_threads = True
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        _url[os.getpid()] = f"http://127.0.0.1:{srv.server_port}/fdsnws/event/1/query"
    return _url[os.getpid()]


EPOCH = datetime(1970, 1, 1)
NUM = {"minlatitude", "maxlatitude", "minlongitude", "maxlongitude", "minmagnitude", "maxmagnitude", "mindepth", "maxdepth"}
EXTRA = {"mindepth": None, "maxdepth": None, "orderby": ["time-asc", "magnitude", "time"], "catalog": ["A&B", "x y", "ü"],
         "format": ["xml"], "contributor": ["c=1", "d"], "nodata": ["404", "204"], "updatedafter": ["2020-01-01"]}
WORDS = ["time-asc", "magnitude", "time", "A&B", "x y", "ü", "xml", "c=1", "d", "404", "204", "2020-01-01", "earthquake", "quarry blast", "not null"]


def value(k, v):
    """query text -> number"""
    try:
        if k in NUM:
            return units(float(v), 0.01)
        if k in ("starttime", "endtime"):
            t = datetime.fromisoformat(v.rstrip("Z"))
            return int((t - EPOCH).total_seconds())
        if k == "includeallmagnitudes":
            return {"true": 1, "false": 0}[v.lower()]
        return 5000 + WORDS.index(v)
    except (ValueError, KeyError):
        return -1


def seconds(t):
    try:
        return int((t - EPOCH).total_seconds())
    except (TypeError, ValueError):
        return -1


def get(client, rng, n, bs, fault=None, at=0):
    a, kw = [], {}

    def num(name, lo, hi, extra=False):
        u = int(rng.integers(lo, hi))
        kw[name] = float(u) / 100 if rng.random() < .7 or u % 100 else u // 100
        a.append([name, u])
    for nm, lo, hi in (("min_latitude", -9000, 9000), ("max_latitude", -9000, 9000), ("min_longitude", -18000, 18000), ("max_longitude", -18000, 18000),
                       ("min_magnitude", -200, 600), ("max_magnitude", 0, 900)):
        if rng.random() < .35:
            num(nm, lo, hi) if rng.random() < .85 else (kw.__setitem__(nm, 0), a.append([nm, 0]))
    for nm in ("start_time", "end_time"):
        if rng.random() < .4:
            sec = int(rng.integers(-10**9, 16 * 10**8))
            kw[nm] = EPOCH + timedelta(seconds=sec)
            if rng.random() < .3:
                import pandas as pd
                kw[nm] = pd.Timestamp(kw[nm])
            a.append([nm, sec])
    r = rng.random()
    if r < .3:
        kw["include_all_magnitudes"] = bool(rng.random() < .5)
        a.append(["include_all_magnitudes", int(kw["include_all_magnitudes"])])
    elif r < .4:
        kw["include_all_magnitudes"] = None
    else:
        a.append(["include_all_magnitudes", 0])
    if rng.random() < .3:
        w = ["earthquake", "quarry blast", "not null"][int(rng.integers(3))]
        kw["event_type"] = w
        a.append(["event_type", 5000 + WORDS.index(w)])
    delta = 10
    if rng.random() < .6:
        delta = int(rng.choice([-1, 2, 10, 20, 50, 0]))
        kw["delta_m"] = None if delta < 0 else delta / 100
    for nm, ws in EXTRA.items():
        if rng.random() < .15:
            if ws is None:
                num(nm, 0, 30000)
            else:
                w = ws[int(rng.integers(len(ws)))]
                kw[nm] = int(w) if w.isdigit() and rng.random() < .5 else w
                a.append([nm, 5000 + WORDS.index(w)])
    if bs:
        kw["batch_size"] = bs
    Server.st = st = dict(n=n, log=[], raw=[], fault=fault, at=at, hit=False, cutat=int(rng.integers(12)), frac=float(rng.uniform(.1, .98)),
                          gz=bool(rng.random() < .2))
    out, err = call(client.get_events, include_ids=True, **kw, _t=60)
    ids = []
    if not err:
        ids = [small_int(str(x).rsplit("/", 1)[-1]) for x in (out["eventID"] if "eventID" in out.columns else [0] * len(out))]
    return {"op": "get", "n": n, "bs": bs, "args": a, "period": [-1, -1] if err else [seconds(getattr(out, k, None)) for k in ("starttime", "endtime")], "delta": delta, "out": ids, "err": err, "fault": bool(st["hit"]), "log": [list(x) for x in st["log"]],
            "params": [[[k, value(k, v)] for k, v in q] for q in st["raw"]]}


def main(run):
    rng = run.rng
    cases = run.model("MCFdsn", cfg(constants=dict(MaxN=run.n("40", "200"), MaxB=run.n("9", "17")),
                                    invariants=["Complete", "NoPartial", "FewProbes", "NoEmptyPage", "Disjoint", "Emit"], properties=["Ends"]),
                      label="all server sizes and batch sizes, any request may fail")
    pick = [cases[int(i)] for i in rng.permutation(len(cases))[: run.n(300, 3000)]]

    def history(c, rng):
        from seismostats import FDSNWSEventClient
        cl = FDSNWSEventClient(url())
        evs = [get(cl, rng, c["n"], c["bs"])]
        for _ in range(int(rng.integers(0, 3))):
            at = int(rng.integers(1, c["reqs"] + 1))
            evs.append(get(cl, rng, c["n"], c["bs"], FAULTS[int(rng.integers(len(FAULTS)))], at))
        if rng.random() < .5:
            evs.append(get(cl, rng, int(rng.integers(0, 30)), 0, *((FAULTS[int(rng.integers(len(FAULTS)))], 1) if rng.random() < .5 else (None, 0))))
        if rng.random() < .5:
            evs.append(get(cl, rng, int(rng.integers(0, 12)), int(rng.integers(1, 6))))
        return {"ev": evs}

    def large(k, rng):
        from seismostats import FDSNWSEventClient
        cl = FDSNWSEventClient(url())
        bs = int(rng.choice([2, 3, 5]))
        n = int(rng.choice([64, 65, 128, 129, 130, 255])) * bs + int(rng.choice([-1, 0, 1]))
        return {"ev": [get(cl, rng, n, bs), get(cl, rng, n, 0)]}
    sessions = run.pmap(history, pick, 1) + run.pmap(large, range(run.n(16, 100)), 2)
    run.judge("TraceFdsn", sessions)
    run.assumptions += ["the server's data do not change during the download and its order is stable",
                        "period limits have whole seconds, magnitudes two decimals"]
