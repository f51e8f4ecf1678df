#!/usr/bin/env python3
"""Fills DESIGN.md from DESIGN.template.md: not-applicable list and the table of planted bugs (with seeded/results.json, written by tools/catch.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.template.md").read()
m = json.load(open(V + "/MANIFEST.json"))
title = {p["id"]: p["title"] for p in map(json.loads, open(V + "/properties.jsonl"))}
s = s.replace("@NA@", "\n".join(f"* **{n['property']}** ({title[n['property']]}): {n['reason']}" for n in m["not_applicable"]))
res = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
t = ["| bug | breaks | needs | caught by its property's check as |", "|-----|--------|-------|------------------|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    j = json.load(open(d))
    t.append(f"| {i} | {j['property']} | {j['needs']} | {res.get(i, '?')} |")
s = s.replace("@SEEDS@", "\n".join(t)).replace("@EXTRA@\n", "")
open(V + "/DESIGN.md", "w").write(s)
