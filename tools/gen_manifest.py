#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": props.PROPS[i]["technique"], "level": "exploration",
           "level_note": props.PROPS[i]["note"]} for i in ids if i in props.PROPS]
na = [{"property": i, "reason": props.NOT_APPLICABLE.get(i, "No check registered yet.")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 -c 'import os; os.makedirs(\"evidence\", exist_ok=True)'",
     "checks": checks, "not_applicable": na, "notes": props.NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
