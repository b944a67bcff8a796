#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "mc"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
M = dict(version=1, setup_cmd="python3 mc/setup.py", checks=[], not_applicable=[],
         notes="All checks build the library from /repo's working tree (content-addressed cache under /verif/build) and run bounded exhaustive explorations against it. See DESIGN.md.")
for p in props:
    if p in CHECKS:
        C = CHECKS[p]
        M["checks"].append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p,
                                technique=C["technique"], level=C.get("level", "model_checking"), level_note=C["note"]))
    else:
        M["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet (not claimed)")))
json.dump(M, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
