#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, LEVEL
from proptext import PROPS, NA

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        if p["id"] not in PLAN and p["id"] not in NA:
            continue
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.py %s --tier quick" % p["id"],
        "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": LEVEL,
        "level_note": p["note"],
    } for p in PROPS if p["id"] in PLAN],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks are needed in /repo: every monitor observes the public interface, the storage behind it, the allocator and the sanitizers. All commits in /repo are fixes of genuine defects, listed in known_findings.txt.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
