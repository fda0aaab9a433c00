"""Writes properties.jsonl and MANIFEST.json from props*.py and claims.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props1, props2, props3  # noqa
from claims import CLAIMS, NA, TECH, NOTES

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for q in props1.P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism":
                        [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None},
        }) + "\n")
ids = [q["id"] for q in props1.P]
assert len(set(ids)) == len(ids)
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": NOTES}
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        man["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": TECH.get(tech, tech), "level": "other", "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(
            i, "no check built for this property yet")})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
