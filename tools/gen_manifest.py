#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, "tools")
from manifest_table import DONE, HOOKS
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        tech, note = DONE[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "model checking applies; its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash mc/build.sh n0", "checks": checks, "not_applicable": na,
     "notes": "Every check builds mc/ (the explorer) from /repo's working tree and enumerates executions of the real requester and responder."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
