"""Writes MANIFEST.json from the checks that exist."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/na.json")) if os.path.exists(V + "/tools/na.json") else {}
TECH = json.load(open(V + "/tools/tech.json")) if os.path.exists(V + "/tools/tech.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(f"{V}/checks/{i.lower()}_*.py") and i not in NA:
        t = TECH.get(i, ["", ""])
        checks.append({"property": i, "quick_cmd": f"./run.py {i} quick", "thorough_cmd": f"./run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": t[0] or "TLA+ model (TLC, exhaustive small constants) + trace validation of the real code against the specification",
                       "level": "model_checking",
                       "level_note": t[1] or "Design: every behaviour of the TLA+ model within the stated constants. Code: every executed input/history "
                       "(the model's cases plus seeded random larger ones) is judged by the TLA+ trace specification; inputs not executed are not decided. "
                       "Trusts TLC, the projection of floats to exact rationals/integers in lib/, and numpy/pandas."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "java -version && /opt/venv/bin/python -c 'import numpy, pandas' && mkdir -p evidence",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every observation is made through the public API. run.py re-executes itself with /opt/venv/bin/python and imports "
              "seismostats from /repo's working tree (nothing is built)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
