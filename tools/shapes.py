#!/usr/bin/env python3
"""Records the loop/closure structure the contracts were written for (contracts/shapes.json)
and the string literals of the functions under contract (contracts/lits.txt)."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
lits = []
units = sorted({u for p in json.load(open(V + "/contracts/units.json")).values() for u in p})
for u in units:
    j = "/tmp/shapes.json"
    subprocess.check_call([V + "/target/vx/release/vx", "/repo", V + "/contracts", u, "/tmp/shapes.rs", j])
    fns = [f for f in json.load(open(j))["fns"] if not f["stub"] and not f.get("error")]
    for f in fns:
        for l in f.get("lits") or [""]:
            lits.append("%s\t%s\t%s" % (u, f["path"], l))
    out[u] = {f["path"]: f.get("shape", "") for f in fns}
json.dump(out, open(V + "/contracts/shapes.json", "w"), indent=1, sort_keys=True)
open(V + "/contracts/lits.txt", "w").write("\n".join(lits) + "\n")
