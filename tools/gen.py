"""Write properties.jsonl and MANIFEST.json from tools/props.py (run from /verif: python3 tools/gen.py)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check rebuilds the MIR dump of /repo's current tree (cache keyed by cargo) and interprets it abstractly; see DESIGN.md."}
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 -m engine.check %s" % p["id"],
                            "thorough_cmd": "python3 -m engine.check %s --tier thorough" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
