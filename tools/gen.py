#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in props.PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        for k in ("state", "observe_at", "hook_needed"):
            if k in p:
                a[k] = p[k]
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["technique"]:
        assert os.path.exists(os.path.join(V, "rules", "p_%s.py" % p["id"].lower()))
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
