#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import TABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = "Search over generated cases against an explicit oracle; it finds violations in the explored cases and never proves their absence. Trusted: the reference codec, the fake server, rapid and the Go runtime."
checks, na = [], []
for p in props:
    t = TABLE.get(p["id"])
    if not t:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": t.get("technique", "property-based testing (rapid) against a reference implementation"),
                   "level": t["level"], "level_note": t.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "check.py builds the harness (GOPATH mode, offline) from /repo's working tree and runs the property's generators; VERIF_SEED fixes every random choice. No hooks in /repo are needed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
