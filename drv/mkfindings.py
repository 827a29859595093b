#!/usr/bin/env python3
"""Writes known-findings.json: the repairs (from /repo's history) and the recorded defects."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject -> property
PROP = json.load(open(os.path.join(V, "drv", "fixprops.json")))
out = []
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    if s not in PROP:
        sys.exit(f"no property for: {s}")
    out.append({"status": "fixed", "property": PROP[s], "commit": h, "what": f"fixed: property={PROP[s]} {h} {s}"})
known = json.load(open(os.path.join(V, "drv", "known.json")))
with open(os.path.join(V, "known-findings.json"), "w") as f:
    json.dump({"findings": known + out}, f, indent=1)
    f.write("\n")
