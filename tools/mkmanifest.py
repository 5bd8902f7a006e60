#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; "
NOTE = {}
CLAIMED = {
 "C01": ("checks/c01.py C01", "VoxelWorld.tla: per recorded compile TLC computes the contents, floods and fills, and compares every cell with the BSP qbsp wrote",
         "every point (cell of the exact arrangement) of each generated box world; the worlds are a seeded random sample"),
 "C02": ("checks/c01.py C02", "VoxelWorld.tla per collision hull: grown boxes, own flood and fill, every cell compared with the clipnode tree",
         "every point of each generated box world in every hull; the worlds are a seeded random sample"),
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        cmd, tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 " + cmd, "thorough_cmd": "VERIF_TIER=thorough python3 " + cmd,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOTE.get(i, "specification and conformance check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py",
     "hooks": {"guard": "ERICWTOOLS_VERIF_TRACE", "enable": "tools/vbuild.py compiles /repo's sources with -DERICWTOOLS_VERIF_TRACE; events go to the file named by the environment variable of the same name", "source_commits": globals().get("HOOKS", [])},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
