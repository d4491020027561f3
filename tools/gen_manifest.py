#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                                technique=c.technique, level=c.level, level_note=c.note or c.technique))
    else:
        m["not_applicable"].append(dict(property=i, reason="check still being built"))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
