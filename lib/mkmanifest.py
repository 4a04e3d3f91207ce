"""Writes MANIFEST.json from the plan: python3 lib/mkmanifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "technique": "TLA+ machine specification; TLC-generated histories replayed on the real library, recorded traces and complete transition tables checked by TLC against the specification",
                            "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not covered yet: the specification is still being extended to it")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
