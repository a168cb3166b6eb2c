#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.props import PROPS, NOTES

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                 "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json",
                 "technique": "TLA+ specification checked with TLC, bound by TLC trace validation of real runs of the program",
                 "level": "model_checking", "level_note": NOTES[p]} for p in props if p in PROPS],
     "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in props if p not in PROPS],
     "notes": "No hooks: everything is observed through the command line and the output files of the program."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
