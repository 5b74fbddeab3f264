"""Write properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, T_STATELESS, N_BASE
from registry import REGISTRY
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["d"]) + "\n")
checks, na = [], []
for p in P:
    i = p["d"]["id"]
    if i in REGISTRY:
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i,
                           thorough_cmd="python3 lib/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=p["technique"] or T_STATELESS,
                           level=REGISTRY[i]["level"],
                           level_note=((p["note"] + " ") if p["note"] else "") + N_BASE))
    else:
        na.append(dict(property=i, reason=p["na"] or "no check built"))
m = dict(version=1, setup_cmd="python3 lib/check.py --build-all", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the harnesses compile the unmodified sources. "
               "Known findings: known_findings.json. Replays: python3 lib/check.py --replay FILE.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
