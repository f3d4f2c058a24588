#!/usr/bin/env python3
"""addfix.py PROP 'commit subject part' 'what failed'  - records a fix commit in known_findings.json"""
import json, os, subprocess, sys
prop, part, what = sys.argv[1:4]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
hits = [h for h, s in log if part in s]
assert len(hits) == 1, (part, hits)
d["fixed"].append("fixed: property=%s %s %s" % (prop, hits[0], what))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
