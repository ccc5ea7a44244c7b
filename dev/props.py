#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place to keep in step)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "turbustat/statistics/"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None,
      note=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w}
                                 for n, m, w in state]
    assert len(title) <= 80, title
    for f in files:
        assert os.path.exists("/repo/" + f), f
    assert len(re.findall(r"\.(?= [A-Z]|$)", statement)) <= 3, id
    PROPS.append((d, technique, note, na))


exec(open(os.path.join(HERE, "dev", "props_data.py")).read())

ids = [d["id"] for d, *_ in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for d, *_ in PROPS:
        fh.write(json.dumps(d) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"",
       "checks": [], "not_applicable": [],
       "notes": "Pure static analysis of /repo's current source: nothing of "
                "TurbuStat is imported or run. See DESIGN.md."}
for d, tech, note, na in PROPS:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        man["checks"].append({
            "property": d["id"],
            "quick_cmd": "python3 check.py %s" % d["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
            "technique": tech, "level": "other", "level_note": note})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "n/a")
