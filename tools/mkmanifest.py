import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS, TECH
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique="runtime monitoring: " + TECH[i], level="exploration",
                           level_note=PROPS[i].get("note", "held on the executions observed; counts in the evidence file")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
