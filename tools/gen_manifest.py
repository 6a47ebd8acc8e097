#!/usr/bin/env python3
"""Writes MANIFEST.json from dv/props.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "dv"))
from props import PROPS, NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=P.get("technique", "contract-based deductive verification of the real code (SMT-discharged contracts)"),
                           level=P.get("level", "proof"), level_note=P["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check re-extracts the functions from /repo's working tree with clang and proves their contracts anew; see DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
