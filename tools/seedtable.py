#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded*/*/meta.json and tools/caught.json
(written by a run of the checks against every planted bug)."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cp = os.path.join(V, "tools/caught.json")
caught = json.load(open(cp)) if os.path.exists(cp) else {}
rows = ["| bug | check | needs | failed obligations | failing input |", "|----|----|----|----|----|"]
for b, d in sorted(((b, d) for b in ("seeded", "seeded-on-fixes") for d in os.listdir(os.path.join(V, b))), key=lambda x: x[1]):
    m = json.load(open(os.path.join(V, b, d, "meta.json")))
    c = caught.get(d, {})
    ob = ", ".join(c.get("obligations", [])[:2]) or c.get("proof", "?")
    inp = {True: "yes", False: "no", None: "?"}[c.get("input")]
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"),
                                               ob.replace("|", "\\|"), inp))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(## 7\. Seeded bugs\n\n).*?(?=\n## 8)", lambda m: m.group(1) + INTRO + "\n".join(rows) + "\n", s, flags=re.S) \
    if (INTRO := "Every bug below is reported by its own property's check (exit 1, VIOLATION line). Where the proof is "
                 "`undecided` the change\nreplaced a loop or used a function the verifier does not know, and the failing "
                 "input alone decides. Those in `seeded-on-fixes` change only lines of the `fix:` commits.\n\n") else s
open(p, "w").write(s)
