#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (run: python3 tools/mkmanifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
have = {f[:3].upper(): f for f in os.listdir(os.path.join(V, "checks")) if f.startswith("c") and f.endswith(".py")}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "TLA+ specification model-checked with TLC; every transition of the bounded instance replayed on the real code, and recorded random executions validated by TLC against the specification",
            "level": "model_checking",
            "level_note": "Exhaustive on the bounded specification instances named in the evidence; every specification transition the code can take is executed on the code and compared; beyond the bounds, seeded random histories recorded from the code are validated against the same specification (exploration). See DESIGN.md."})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/prebuild.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
