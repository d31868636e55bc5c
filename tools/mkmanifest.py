#!/usr/bin/env python3
"""writes MANIFEST.json: the claimed checks, and the properties that are not claimed (yet)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
XBW = "TLA+ specification of the shared-memory library (spec/Xbw.tla) explored by TLC; every transition of the bounded state graph and long random behaviours are replayed on the real library, and its traces are checked against the specification by TLC"
NOTE = "bounded exhaustive state graphs plus seeded random behaviours; the driver observes dictionaries, lists in both directions, values, offsets and space after calls"
CLAIM = {p: (XBW, "model_checking", NOTE) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]}
exec(open(os.path.join(V, "tools/claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIM:
        t, lv, n = CLAIM[i]
        M["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": n})
    else: M["not_applicable"].append({"property": i, "reason": NA.get(i, "the specification of this part is not finished yet")})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
