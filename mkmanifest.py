#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
from plan import PROPS, TECHNIQUE, LEVEL_NOTE

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3 check.py " + i,
        thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
        evidence_file="evidence/%s.json" % i,
        technique=TECHNIQUE[i],
        level="exploration",
        level_note=LEVEL_NOTE[i]))
m = dict(version=1,
         setup_cmd="python3 -m py_compile check.py plan.py && mkdir -p build evidence",
         checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids
                         if i not in PROPS],
         notes="No hooks in /repo. Every check compiles the headers of /repo/src/include as "
               "they are in the working tree. VERIF_SEED selects the generated cases.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
