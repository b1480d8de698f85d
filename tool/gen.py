#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tool/props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b} for a, b in p["state"]]}}) + "\n")

checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "static check still under construction"})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py --tier thorough " + p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "All checks analyse /repo's current source: a libTooling extractor (tool/extract.cpp) dumps the resolved program of every translation unit of the configured build, the checks in checks/ decide rules over it (sa/engine.py: path-sensitive property simulation). No hooks in /repo. properties.jsonl and this file are generated by tool/gen.py from tool/props.py."}, fh, indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not applicable")
