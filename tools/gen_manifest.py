import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import techniques as T
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in T.NA:
        na.append(dict(property=i, reason=T.NA[i]))
    elif os.path.exists(f"{V}/checks/{i.lower()}.py") and i in T.TECH:
        tech, note = T.TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", technique=tech, level="other",
                           level_note=note, evidence_file=f"evidence/{i}.json",
                           thorough_cmd=f"python3 check.py {i} --thorough"))
    else:
        na.append(dict(property=i, reason="No static check has been built for it yet."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks are static: they parse /repo's current sources on every run and execute none of them. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
