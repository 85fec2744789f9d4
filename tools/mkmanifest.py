#!/usr/bin/env python3
"""Write MANIFEST.json from the rules that are registered."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(ROOT, "sa", "main.py")).read()
rules = re.search(r"RULES = \{(.*?)\n\}", src, re.S).group(1)
claimed = re.findall(r'"(C\d+)":', rules)

TECH = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        t, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "other",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})

m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis of the typed MIR of both crates; see DESIGN.md. Repairs of defects found are the fix: commits in /repo, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
