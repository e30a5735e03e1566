#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import config
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    c = config.CFG.get(p)
    if not c:
        na.append({"property": p, "reason": config.NA.get(p, "check not built yet")}); continue
    d = {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
         "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]}
    if c.get("theorems"): d["theorems"] = c["theorems"]
    checks.append(d)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": config.HOOKS, "checks": checks, "not_applicable": na, "notes": config.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
