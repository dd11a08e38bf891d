#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py.

A property is claimed when harness/<id>/ exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
        if os.path.exists(os.path.join(R, "harness", p["id"].lower(), "main.go")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s quick" % p["id"],
                "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": p.get("na", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Each check overlays /verif/harness on /repo/internal/verifmc with a Go build overlay, so it is rebuilt from /repo's working tree and nothing is written there; no hooks in /repo are needed. Known and fixed findings: known-findings.txt."}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
