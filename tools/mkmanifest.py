#!/usr/bin/env python3
"""writes MANIFEST.json from harness/meta.py and the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import meta
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(V + "/harness/props/%s.py" % i.lower()):
        m = meta.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m["technique"], "level": m["level"], "level_note": m["level_note"]})
    else:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 harness/build.py plain asan tree treeasan", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
