#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, title, statement, over, text, why, files, mechanism, technique, note))


S = "src/fedservice/"
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
    for pid, title, statement, over, text, why, files, mechanism, *_ in P:
        fp.write(json.dumps({
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [S + f for f in files], "mechanism": mechanism}}) + "\n")

checks, na = [], []
for pid, title, statement, over, text, why, files, mechanism, technique, note in P:
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": technique, "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
    json.dump({"version": 1,
               "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, 'lib'); import vf; vf.bootstrap(); import hypothesis, fedlib\"",
               "checks": checks, "not_applicable": na,
               "notes": "Every check runs /verif/check, which imports the code from /repo/src at run time; "
                        "nothing is built or cached. No hooks: time and network are replaced from outside."},
              fp, indent=1)
print(len(P), "properties,", len(checks), "checks")
