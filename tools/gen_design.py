#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
import properties_src
caught = json.load(open(V + "/tools/caught.json"))
out = open(V + "/tools/design_head.md").read()
n = lambda c: " + ".join(f"{v} ({k})" for k, v in c.items()) if isinstance(c, dict) else str(c)
for e in properties_src.P:
    i = e["id"]
    out += f"\n### {i} {e['title']}\n\n"
    if i not in PROPS:
        out += "Not claimed.\n"; continue
    c = PROPS[i]
    out += f"- Decided by: {c['technique']}.\n- Generated: {c['rule']}.\n- Oracle and limits: {c['note']}\n"
    if c.get("assumptions"): out += "- Assumed: " + "; ".join(c["assumptions"]) + ".\n"
    out += f"- Cost: {n(c['cases'])} cases quick, {n(c['thorough_cases'])} thorough.\n- Why tests do not settle it: {e['why_tests_cant']}\n- Anchored in: {', '.join(e['anchors']['files'])}.\n"
out += open(V + "/tools/design_tail.md").read()
out += "| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); s = d.split("/")[-2]
    out += f"| {s} | {m['property']} | {m['needs']} | {caught.get(s, 'not tried')} |\n"
open(V + "/DESIGN.md", "w").write(out)
