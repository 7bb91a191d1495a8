#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
PY = "/opt/venv/bin/python"

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        print(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": p["state"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"],
                "hook_needed": p["hook"],
            },
        }), file=f)

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']}",
            "thorough_cmd": f"python3 run.py {p['id']} --thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are property-based tests (Hypothesis) over the real code in /repo/cdtb, imported from the working tree by /opt/venv/bin/python; run.py drives them. No hooks are needed in /repo. VERIF_SEED and VERIF_TIER select seed and depth.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    print(file=f)
