#!/usr/bin/env python3
"""record_fix.py PROPERTY COMMIT TEXT: adds a fixed entry to known_findings.json."""
import json, pathlib, subprocess, sys
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
h = subprocess.run(["git", "-C", "/repo", "rev-parse", sys.argv[2]], capture_output=True, text=True, check=True).stdout.strip()
line = f"fixed: property={sys.argv[1]} {h} {sys.argv[3]}"
if line not in d["fixed"]:
    d["fixed"].append(line)
f.write_text(json.dumps(d, indent=1) + "\n")
