#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the check.json files, properties.jsonl, the seeded bugs and tools/campaign.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
info = json.load(open("tools/design.json"))
t = []
for l in open("properties.jsonl"):
    p = json.loads(l); i = p["id"]
    c = json.load(open("harness/%s/check.json" % i.lower()))
    d = info["props"].get(i, {})
    t.append("### %s %s\n" % (i, p["title"]))
    t.append("*Oracle*: %s *Why tests cannot settle it*: %s\n" % (d.get("oracle", ""), p["why_tests_cant"]))
    t.append("*Bounds*:\n" + "\n".join("- " + b for b in c["bounds"]))
    t.append("\n*Outside*: " + "; ".join(c["outside"]) + ".")
    if c["assumptions"]: t.append("\n*Assumed*: " + "; ".join(c["assumptions"]) + ".")
    t.append("\n*Harnesses*: " + ", ".join(c["reach"]) + ". *Cost*: about %s s.\n" % d.get("cost", "?"))
defs = {}
n = 0
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if m: defs.setdefault(m[1], []).append("%s (%s)" % (m[3], m[2])); n += 1
dd = "\n".join("- %s: %s" % (k, "; ".join(v)) for k, v in sorted(defs.items()))
s = ["| Bug | Property | Needs | Caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); name = f.split("/")[1]
    s.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"], info["caught"].get(name, m["property"])))
o = open("tools/design.md").read()
mut = open("tools/campaign.md").read() if os.path.exists("tools/campaign.md") else ""
for k, v in {"@@TABLE@@": "\n".join(t), "@@NDEF@@": str(n), "@@DEFECTS@@": dd, "@@SEEDED@@": "\n".join(s), "@@MUT@@": mut}.items(): o = o.replace(k, v)
open("DESIGN.md", "w").write(o)
