#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=state or [],
                                mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or [], hook_needed=None)),
              technique, note, na))


exec(open(os.path.join(R, "spec", "table.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p, tech, note, na in P:
    if na is None:
        checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                       "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": tech, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na} for p, _, _, na in P if na is not None]}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
