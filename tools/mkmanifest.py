#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 tools/run.py %s" % p["id"],
        "thorough_cmd": "python3 tools/run.py %s" % p["id"],
        "technique": c.get("technique", "randomized programs under AddressSanitizer/UBSan with a reference-model monitor"),
        "level": c["level"],
        "level_note": c.get("note", "Held on the executions explored; nothing is claimed about executions not generated. Trusts the harness' reference model, gcc sanitizers and the kernel."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py", "checks": checks,
     "notes": "src/middleware.c needs yyjson, which is absent here; harnesses link a stand-in (shim/) backed by nlohmann::json."}
if na:
    m["not_applicable"] = na
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
