#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None, level="proof"):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if state: d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note, level))
    if na: NA.append({"property": id, "reason": na})

exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [d["id"] for d, *_ in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = {x["property"] for x in NA}
checks = []
for d, t, n, l in P:
    if d["id"] in na: continue
    checks.append({"property": d["id"], "quick_cmd": f"bash check.sh {d['id']} quick", "thorough_cmd": f"bash check.sh {d['id']} thorough",
                   "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "All checks are static: the analyzer type-checks /repo, lowers it to SSA and explores its paths over rule-specific abstractions; nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(checks), "checks", len(NA), "n/a")
