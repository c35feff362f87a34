#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list is this file)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
exec(open(os.path.join(HERE, "bin", "props_src.py"), encoding="utf-8").read())
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
