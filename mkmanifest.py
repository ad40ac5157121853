#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claimed properties below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
claimed = json.load(open(os.path.join(V, "claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = claimed.get(i)
    if c and "na" not in c:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s quick" % i,
            "thorough_cmd": "python3 run_check.py %s thorough" % i,
            "technique": c.get("technique", "contract-based deductive verification: verification conditions generated from the Go SSA of /repo (gover), discharged by z3/cvc5; executable-contract replay"),
            "level": "proof",
            "level_note": c["note"],
            "theorems": c.get("theorems", []),
        })
    else:
        na.append({"property": i, "reason": (c or {}).get("na", "not built yet: no contract set committed for it so far")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts live in contracts/*.gvc, keyed by function; the verifier is gover/ (built from source on every run). No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
