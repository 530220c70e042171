#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/config.py."""
import importlib.util
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("c", V + "/checks/config.py")
m = importlib.util.module_from_spec(spec)
import sys
sys.path.insert(0, V)
spec.loader.exec_module(m)
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    c = m.CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                       technique=c.get("technique", "property-based testing against an independent oracle"), level="exploration",
                       level_note=c.get("note", "Generated-input search; no claim beyond the explored cases.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
