#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the checker decides."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.join(here, "mc", "cmd", "check")
levels = {}
for f in sorted(os.listdir(src)):
    for m in re.finditer(r'checks\["(C\d+)"\] = check\{"(\w+)"', open(os.path.join(src, f)).read()):
        levels[m.group(1)] = m.group(2)
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in levels:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    n = notes[p]
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh %s quick" % p,
        "thorough_cmd": "bash check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": n["technique"],
        "level": levels[p],
        "level_note": n["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds the checker in mc/ against /repo's working tree; no hooks are needed. Known and fixed findings are in FINDINGS.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
