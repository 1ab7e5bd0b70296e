#!/usr/bin/env python3
"""Writes MANIFEST.json from the metadata of the check modules (PROPERTY, LEVEL, TECHNIQUE, LEVEL_NOTE)."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, have = [], set()
for path in sorted(glob.glob(os.path.join(here, "mc", "c[0-9][0-9].py"))):
    md = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                md[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    pid = md["PROPERTY"]
    have.add(pid)
    checks.append(dict(property=pid, quick_cmd="VERIF_TIER=quick bash check.sh " + pid,
                       thorough_cmd="VERIF_TIER=thorough bash check.sh " + pid,
                       technique=md["TECHNIQUE"], level=md["LEVEL"], level_note=md["LEVEL_NOTE"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in have],
         notes="No hooks in /repo: the checks own the environment from outside (random number generator, user callbacks, "
               "communicator, file-system calls). Known findings and repaired defects: known_findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
