#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
C, NA = {}, {}
def claim(id, technique, note, level="exploration"):
    C[id] = dict(property=id, quick_cmd=f"bin/check {id}", thorough_cmd=f"bin/check {id}", evidence_file=f"evidence/{id}.json",
                 technique=technique, level=level, level_note=note)
def na(id, why): NA[id] = dict(property=id, reason=why)
exec(open(os.path.join(HERE, "bin", "manifest_src.py"), encoding="utf-8").read())
for i in ids:
    if i not in C and i not in NA:
        na(i, "no monitor built yet")
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [C[i] for i in ids if i in C],
     "not_applicable": [NA[i] for i in ids if i not in C],
     "notes": "No hooks: every monitor observes public interfaces. VERIF_SEED selects the random choices, VERIF_TIER=thorough the deep run; VERIF_PHASE and VERIF_CASE replay one case."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
