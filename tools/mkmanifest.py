#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present (checks/<ID>.py with TECHNIQUE/LEVEL_NOTE)."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    fn = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(fn):
        na.append({"property": p["id"], "reason": "no check yet (work in progress)"})
        continue
    consts = {}
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({"property": p["id"],
        "quick_cmd": "python3 run_check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": consts["TECHNIQUE"], "level": consts.get("LEVEL", "exploration"), "level_note": consts["LEVEL_NOTE"]})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the generator and/or the generated code from /repo's current tree into a scratch directory under /tmp which it removes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
