#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + [q["p"] for q in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the monitors use the public API, the built commands, their files and their network traffic", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": q["p"]["id"], "reason": q["reason"]} for q in NOT_APPLICABLE],
    "notes": "See DESIGN.md. Genuine defects found and repaired are listed in known-findings.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
