#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules the checker registers and the list of
properties that are not claimed."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
NOT = json.load(open(here + "/not_applicable.json"))
subprocess.check_call([here + "/check.sh", "--build"])
import glob
bins = sorted(glob.glob(here + "/bin/gojicheck-*"), key=os.path.getmtime)
rules = json.loads(subprocess.check_output([bins[-1], "-list"]))
checks = []
for r in rules:
    checks.append({
        "property": r["Prop"],
        "quick_cmd": "./check.sh %s quick" % r["Prop"],
        "thorough_cmd": "./check.sh %s thorough" % r["Prop"],
        "technique": r["Technique"],
        "level": "other",
        "level_note": r["Explain"] + (" NOT DECIDED: " + r["Limits"] if r.get("Limits") else ""),
    })
claimed = {r["Prop"] for r in rules}
na = [{"property": p, "reason": NOT.get(p, "not built yet")} for p in props if p not in claimed]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one static analyser (checker/): it parses and type-checks /repo's current sources, builds SSA and decides each property by abstract interpretation, dataflow or call/lock rules; nothing of /repo is executed. No hooks are added to /repo. Genuine defects found were repaired by the fix: commits listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
