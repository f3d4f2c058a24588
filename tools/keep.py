#!/usr/bin/env python3
"""keep.py REPLAY... - moves replay files into regress/<PROP>/ (they are then executed first in every run)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    d = json.load(open(p))
    out = os.path.join(V, "regress", d["property"])
    os.makedirs(out, exist_ok=True)
    json.dump({"check": d["check"], "case": d["case"]}, open(os.path.join(out, os.path.basename(p)), "w"), sort_keys=True)
    os.remove(p)
