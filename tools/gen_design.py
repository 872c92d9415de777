#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, design_notes.py, techniques, findings, seeds and design_tail.md"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from design_notes import NOTES, NA
tech = json.load(open(V + "/tools/techniques.json"))
man = json.load(open(V + "/MANIFEST.json"))
na = {x.get("property", x.get("id")): x["reason"] for x in man["not_applicable"]}
known = json.load(open(V + "/known_findings.json"))
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out = [open(V + "/tools/design_head.md").read().rstrip(), ""]
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    out.append("### %s %s" % (p, d["title"]))
    if p in na:
        out.append("Not applicable: " + na[p])
    else:
        t = tech[p]
        t = t if isinstance(t, list) else [t["technique"], t["scope"]]
        out.append("*Method.* %s. %s" % (t[0][0].upper() + t[0][1:], NOTES.get(p, "")))
        out.append("*Bounds.* %s." % t[1].rstrip("."))
        for f in known["findings"]:
            if f["property"] == p:
                out.append("*Known finding.* `%s`: %s" % (f["key"], f["what"]))
        n = [f for f in known["fixed"] if f.startswith("fixed: property=%s " % p)]
        if n:
            out.append("*Repaired.* " + "; ".join(" ".join(f.split(" ")[3:]) + " (" + f.split(" ")[2] + ")" for f in n))
    out.append("")
out.append("## 3. Planted bugs and the checks that catch them\n")
out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/").replace("\n", " "), d["needs"].replace("|", "/").replace("\n", " "), res.get(i, d["property"])))
out.append("")
t = V + "/tools/design_tail.md"
if os.path.exists(t):
    out.append(open(t).read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", len("\n".join(out)))
