#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((d, technique, level, note))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are committed to /repo: checks build instrumented copies of its sources through go build -overlay (harness/instr)", "source_commits": []},
     "checks": [{"property": d["id"], "quick_cmd": "./check.sh " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + d["id"],
                 "technique": t, "level": l, "level_note": n} for d, t, l, n in P],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "See DESIGN.md. Findings, all of them repaired by fix: commits in /repo or listed, are in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
