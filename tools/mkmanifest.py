#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/specs.py (run after changing the specs)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "bin"))
from specs import SPECS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert set(SPECS) | set(NOT_APPLICABLE) <= set(ids) and not set(SPECS) & set(NOT_APPLICABLE)
m = dict(version=1, setup_cmd="python3 bin/vbuild.py asan:exec",
         checks=[dict(property=i,
                      quick_cmd=f"python3 bin/check.py {i} --tier quick",
                      thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
                      technique=SPECS[i]["technique"], level=SPECS[i].get("level", "exploration"),
                      level_note=SPECS[i]["level_note"]) for i in ids if i in SPECS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in SPECS],
         notes=NOTES)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", "not claimed:", [x["property"] for x in m["not_applicable"]])
