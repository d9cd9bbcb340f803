#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (per-property table, planted bugs)."""
import json, os, re, glob, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = json.load(open(here + "/MANIFEST.json"))
chk = {c["property"]: c for c in m["checks"]}
na = {n["property"]: n["reason"] for n in m["not_applicable"]}
cost = json.load(open(here + "/costs.json")) if os.path.exists(here + "/costs.json") else {}
why = json.load(open(here + "/why.json")) if os.path.exists(here + "/why.json") else {}
out = ["## Properties", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in chk:
        out.append("*How:* %s." % chk[i]["technique"])
        out.append("")
        out.append("*What is analysed:* %s" % chk[i]["level_note"])
        if i in why: out += ["", "*Beyond tests:* " + why[i]]
        if i in cost: out += ["", "*Cost:* about %s s." % cost[i]]
    else:
        out.append("*Not applicable:* " + na.get(i, "?"))
    out.append("")
sd = []
res = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
sd += ["| planted bug | property | caught | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    j = json.load(open(d)); n = d.split("/")[-2]
    sd.append("| %s | %s | %s | %s |" % (n, j["property"], res.get(n, "?"), j["needs"]))
s = open(here + "/DESIGN.md").read()
s = re.sub(r"<!-- PROPERTIES -->.*?<!-- END -->", lambda _: "<!-- PROPERTIES -->\n" + "\n".join(out) + "<!-- END -->", s, count=1, flags=re.S)
s = re.sub(r"<!-- SEEDED -->.*?<!-- END -->", lambda _: "<!-- SEEDED -->\n" + "\n".join(sd) + "\n<!-- END -->", s, count=1, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
