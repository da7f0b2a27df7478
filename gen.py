#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import P
from checks import CHECKS
D = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "level": c["level"], "level_note": c["note"], "technique": c["technique"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "No check yet: under construction."})
m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "One simulator (simrt/) runs the real headers of /repo/include inside simulated processes; no hooks in /repo. "
              "See DESIGN.md. Fixed defects are listed in known_findings.json."}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed:", [c["property"] for c in checks], "not claimed:", [x["property"] for x in na])
