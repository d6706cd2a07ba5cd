#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (development helper; not used by any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools/techniques.json")))
hooks = json.load(open(os.path.join(V, "tools/hooks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -m py_compile lib/*.py checks/*.py check.py", checks=[], hooks=hooks, not_applicable=[],
         notes="Every check rebuilds the library from /repo's working tree (out of tree), runs it under monitors, and writes its evidence.")
for p in props:
    if p in TECH and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t = TECH[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                                technique=t["technique"], level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
