#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check for every function of run/checks.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "run")); sys.path.insert(0, os.path.join(V, "tools"))
import checks
from levels import LEVELS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash run/setup.sh", "checks": [], "not_applicable": [],
       "notes": "TLA+ specifications in spec/, checked with TLC; run/check.py builds the driver in harness/ and the tools of /repo, "
                "drives the real code and lets TLC judge what it did. No hooks: everything is observed through the public API, files, "
                "command-line tools and gRPC."}
for p in props:
    if not hasattr(checks, p):
        out["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")})
        continue
    tech, note = LEVELS[p]
    out["checks"].append({"property": p, "quick_cmd": "python3 run/check.py %s quick" % p, "thorough_cmd": "python3 run/check.py %s thorough" % p,
                          "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
