#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
import plan
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=q["technique"], level="exploration",
                           level_note=q["note"]))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="python3 lib/build.py py cli drv tsan" if "--all" in sys.argv or os.path.exists(os.path.join(V, "harness", "thr.cpp")) else "python3 lib/build.py py cli",
         checks=checks, not_applicable=na,
         notes="Runtime monitoring: the library, its Python module and its command-line tool are rebuilt from /repo's working tree with ASan+UBSan (and TSan for threads); monitors and oracles are in props/ and harness/. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
