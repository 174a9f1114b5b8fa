#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand, output committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
SI = "rust/jstprove_onnx/src/shape_inference.rs"
P = []
TESTS_ONNX = "The crate's unit tests build a handful of fixed graphs; the rule is over every rank, extent and attribute combination, most of which no test reaches."


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(V, "docs/properties.py")).read())
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks = []
for x in P:
    i = x["id"]
    if i not in PROPS:
        continue
    q = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py --property {i}", thorough_cmd=f"python3 check.py --property {i} --tier thorough",
                       technique=q.get("technique", "contract-based deductive verification: Verus on functions extracted from /repo at every run"),
                       level=q.get("level", "proof"), level_note=q["note"]))
na = [dict(property=a, reason=b) for a, b in NOT_APPLICABLE]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
missing = [i for i in ids if i not in PROPS and i not in [a for a, _ in NOT_APPLICABLE]]
print("unclaimed without reason:", missing)
