#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NOTYET = [], [], []

def prop(id, title, statement, over, qtext, why, files, mech, pkg=None, bin=None, technique=None, note=None,
         state=(), observe=(), built=True, na=None):
    PROPS.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})
    if built:
        cmd = f"./run.sh {pkg} {bin or id.lower()}"
        CHECKS.append({"property": id, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": f"evidence/{id}.json",
                       "technique": technique, "level": "exploration", "level_note": " ".join(note.split())})
    else:
        NOTYET.append({"property": id, "reason": na or "check not built yet"})

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the monitors observe public interfaces, and virtual time comes from interposing clock_gettime in the harness", "source_commits": []},
       "checks": CHECKS, "not_applicable": NOTYET}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(PROPS), "properties", len(CHECKS), "checks", len(NOTYET), "not claimed")
assert all(len(p["title"]) <= 80 for p in PROPS), [p["id"] for p in PROPS if len(p["title"])>80]
