#!/usr/bin/env python3
"""record the loop kinds of every extracted function of the unchanged tree (contracts/shapes.json)"""
import sys, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["check.py", "C00"]; sys.path.insert(0, V + "/vp")
import check
vpx = check.build_vpx(); r = {}
for n in check.UNITS:
    u = check.Unit(n); src, e = check.expand(u.u)
    out, m, e = u.extract(vpx, src, set()); r[n] = m["shapes"]
json.dump(r, open(V + "/contracts/shapes.json", "w"), indent=1, sort_keys=True)
shutil.rmtree(check.WORK)
