#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks_table.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from checks_table import PROPS, NOT_APPLICABLE
R = os.path.dirname(H)
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[],
    notes="Every check extracts the functions under contract from /repo's working tree and has Verus discharge all obligations; see DESIGN.md.")
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="contract-based deductive verification (Verus) of the functions extracted from /repo", level="proof", level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE[i]))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
