#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [here, root]
sys.dont_write_bytecode = True
from props import PROPS
from checks import CHECKS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
NOTE = "Every execution within the bounds is run on the real code (rebuilt from /repo) under AddressSanitizer and compared with a reference model. Bounds: "
checks, na = [], []
for p in PROPS:
    s = CHECKS.get(p["id"])
    if not s:
        na.append(dict(property=p["id"], reason="not claimed: " + p.get("na", "the explorer for it is not built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="model checking: " + s.get("technique", "exhaustive stateless exploration of the real code against a reference model"),
        level="model_checking", level_note=NOTE + s.get("note", p["quantifier"]["text"])))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
