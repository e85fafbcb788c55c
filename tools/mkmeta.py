#!/usr/bin/env python3
"""Emit properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import props                      # noqa: E402
from tfcheck import registry      # noqa: E402

V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        if p["id"] in registry.PROPS or p.get("na"):
            q = {k: v for k, v in p.items() if k not in ("na", "technique", "note")}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i in registry.PROPS:
        checks.append({"property": i, "quick_cmd": "./check %s" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    elif p.get("na"):
        na.append({"property": i, "reason": p["na"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": props.NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
