#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(VERIF, "tools"))
from notes import NOTES  # noqa: E402

checks = []
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)
        technique, note = NOTES[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 tools/check.py %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
                       "technique": technique, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in /repo: everything is "
              "observed through the public API. Known findings: known_findings.txt."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
