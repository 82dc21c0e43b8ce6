#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
units = json.load(open(V + "/contracts/units.json"))
notes = json.load(open(V + "/contracts/notes.json"))
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    proof = p in units
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"
                     if proof else "bounded stand-in: differential search on the real code (contracts pending)",
        "level": "proof" if proof else "exploration",
        "level_note": notes.get(p, "Bounded search on the real code against an independent reference; nothing proved yet."),
    })
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
           "notes": "See DESIGN.md. Known findings: KNOWN_FINDINGS.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
