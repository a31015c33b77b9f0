#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        pl = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i}",
                           thorough_cmd=f"python3 bin/check.py {i}", technique=pl.get("technique", plan.T_SEQ),
                           level="model_checking", level_note=pl["rule"] + ". Assumes: " + "; ".join(pl["assumptions"]),
                           evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=plan.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --build", checks=checks, not_applicable=na, notes=plan.NOTES)
if plan.HOOKS:
    m["hooks"] = plan.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
