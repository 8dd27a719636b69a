#!/usr/bin/env python3
"""Writes MANIFEST.json.  LEVEL: what decides each property on the current state of the contracts."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/levels.json"))
checks = []
for p in props:
    n = notes.get(p["id"], {})
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
        technique="contract-based deductive verification of the MIR of the current source (mirvc: path-wise verification conditions, z3 and cvc5), with a bounded stand-in over the public API for the functions out of its reach and for replaying",
        level=n.get("level", "other"), level_note=n.get("note", "")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="See DESIGN.md. Layer A: contracts/ verified by mirvc on every run. Layer B: harness/, labelled bounded. No hooks in /repo.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
