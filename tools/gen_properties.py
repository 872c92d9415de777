#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays uniform)."""
import json, os
S = "src/PROPOSAL/detail/PROPOSAL/"
H = "src/PROPOSAL/PROPOSAL/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append(d)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
