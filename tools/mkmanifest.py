#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import CHECKS
from notes import NOTES, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "SEARCH_VERIF_SZHINT_MAX",
               "enable": "the harnesses compile /repo's sources with -DSEARCH_VERIF_SZHINT_MAX=64; with the define absent the code is the original",
               "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "check.py builds the harnesses of one property from /repo's working tree in a temporary directory and runs them; registry.py lists them. A replay file is re-run with: python3 check.py --replay FILE"}
for i in ids:
    if i in CHECKS:
        tech, note = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
