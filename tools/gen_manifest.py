#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and the lists below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [{"property": p, "quick_cmd": f"python3 run_check.py {p}", "thorough_cmd": f"python3 run_check.py {p} --thorough", "evidence_file": f"evidence/{p}.json",
           "technique": c["technique"], "level": "exploration", "level_note": c["note"]} for p, c in CHECKS.items()]
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ids if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na, "notes": NOTES}, open(V + "/MANIFEST.json", "w"), indent=1)
