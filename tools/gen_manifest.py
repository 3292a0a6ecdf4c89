#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to rewrite the file)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in plan.CLAIMED:
        tech, note = plan.CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py --prop {i} --tier quick",
                           thorough_cmd=f"python3 tools/check.py --prop {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=plan.NOT_CLAIMED.get(i, "the specification module and conformance harness for it are not finished")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, C++ conformance harnesses in harness/, drivers in tools/. No hooks in /repo are needed: everything is observed through user-supplied allocators and element types.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
