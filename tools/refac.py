#!/usr/bin/env python3
"""refac.py [ID...]: behaviour-preserving edits; shows what the verifier makes of each (no search).
proved = nothing failed; otherwise failed obligations (a false alarm of the no-failing-input-found kind) or undecided functions."""
import os, sys, subprocess, shutil, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = {}
def R(id, units, edits): DEFS[id] = (units, edits)
for f in sorted(glob.glob(V + "/tools/refac/*.py")): exec(open(f).read())
RUN = r'''
import sys; sys.argv=["check.py","C00"]; sys.path.insert(0, "%s/vp")
import check, json
vpx=check.build_vpx()
for n in %r:
    u=check.Unit(n); check.expand(u.u); u.go(vpx)
    print(json.dumps(dict(unit=n, ver=u.verified, fail=[(f["fn"],f["kind"],f["props"]) for f in u.fail], und=u.undecided, whole=u.whole, lost=[x for x in u.notes if x.startswith("lost")])))
import shutil; shutil.rmtree(check.WORK)
'''
def one(id):
    units, edits = DEFS[id]
    d = f"/tmp/rf-{id}"; shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", d], check=True)
    subprocess.run(["cp", "/repo/Cargo.lock", d], check=False)
    for f, a, b in edits:
        t = open(f"{d}/{f}").read()
        if t.count(a) < 1: print(id, "EDIT DOES NOT APPLY", a[:60]); shutil.rmtree(d); return
        open(f"{d}/{f}", "w").write(t.replace(a, b, 1))
    r = subprocess.run(["python3", "-c", RUN % (V, units)], env=dict(os.environ, VP_REPO=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except Exception: print(id, l); continue
        st = "PROVED" if not j["fail"] and not j["und"] and not j["whole"] else ("ALARM" if j["fail"] else "undecided")
        print(f"{id} [{j['unit']}] {st} {j['ver']}")
        for x in j["fail"]: print("    fail", x)
        for k, w in j["und"].items(): print("    und", k, w[:200])
        if j["whole"]: print("    WHOLE", j["whole"][:500])
        for x in j["lost"]: print("    ", x[:160])
    if r.returncode: print(id, r.stderr[-800:])
    shutil.rmtree(d)
if __name__ == "__main__":
    ids = sys.argv[1:] or list(DEFS)
    for i in ids:
        if i in DEFS: one(i)
        else:
            for k in DEFS:
                if k.startswith(i): one(k)
