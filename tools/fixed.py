#!/usr/bin/env python3
"""tools/fixed.py PROPERTY SUBJECT-SUBSTRING WHAT-FAILED: list a repair."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, subject, text = sys.argv[1:]
log = subprocess.check_output(["git", "-C", "/repo", "log",
                               "--format=%h %s"]).decode().splitlines()
hits = [l.split()[0] for l in log if subject in l]
assert len(hits) == 1, hits
path = os.path.join(ROOT, "known_findings.json")
entries = json.load(open(path))
entry = "fixed: property=%s %s %s" % (prop, hits[0], text)
if entry not in [e["entry"] for e in entries]:
    entries.append({"kind": "fixed", "entry": entry})
open(path, "w").write("[\n" + ",\n".join(
    " " + json.dumps(e) for e in entries) + "\n]\n")
