#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py --prop %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over operation histories and faults, compared with a reference model",
                       "level": PROPS[i]["level"], "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the simulator interposes libc file calls and operator new at link time and compiles the unmodified headers.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Known and repaired defects: known_findings.json. Design, bounds and planted-bug results: DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
