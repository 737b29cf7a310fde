#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(root, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in T and "technique" in T[i]:
        c = T[i]
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=T.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="All checks drive the unmodified library through its public API (no hooks in /repo): injection points are the container interface, the logger, readers, thread counts, CPU feature switches and system calls."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
