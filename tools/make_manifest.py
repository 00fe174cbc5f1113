#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        cmd = "python3 tools/check.py %s" % i
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/check.py --build", checks=checks, not_applicable=na,
         notes="No hooks: the checks compile /repo's sources directly. Each check builds what it needs; setup_cmd only warms the cache in build/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
