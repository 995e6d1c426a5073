#!/usr/bin/env python3
"""Writes MANIFEST.json from props.CHECKS and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for pid in ids:
    c = props.CHECKS.get(pid)
    if not c:
        continue
    cmd = "python3 check.py " + pid
    checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % pid,
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=p, reason="its check is not built yet") for p in ids if p not in props.CHECKS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses and toolchain instrumentation are placed by go build overlays. 'fix:' commits in /repo repair defects found; see known_findings.jsonl and DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
