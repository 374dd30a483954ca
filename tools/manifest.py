#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the real Go functions, conditions generated from their SSA, discharged by z3/cvc5"
NOTE = {
}
DEFAULT = ("All inputs, all iterations; partial correctness. Assumes the translation to SSA (x/tools/go/ssa), the condition generator in engine/gv, "
           "the solvers, mathematical integers, and the contracts of external functions listed in the evidence.")
CLAIMED = json.load(open(HERE + "/tools/claimed.json"))
NA = json.load(open(HERE + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": [], "not_applicable": [],
     "notes": "check.py ID [quick|thorough]; contracts in contracts/, generator in engine/gv, searches for failing inputs in falsify/ (run only to replay a failed obligation, and as a cross-check in the thorough tier)."}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": CLAIMED[i] or DEFAULT})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
