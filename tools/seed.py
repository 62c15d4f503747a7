#!/usr/bin/env python3
"""seed.py [ID...]: (re)build the planted bugs of tools/seeds/*.py in a scratch copy of /repo.

Each seeds file defines S(id, property, edits, demo, needs, breaks, ...). A bug is kept in /verif/seeded/<id> only when it
builds, passes the stable tests, and its demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed"
SEEDS = {}
def S(id, prop, edits, demo, needs, breaks, std=True, feats="", profile=""):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, std=std, feats=feats, profile=profile)
for f in sorted(glob.glob(f"{V}/tools/seeds/*.py")): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    os.makedirs(R, exist_ok=True)
    if not os.path.exists(R + "/repo"): sh(f"cp -a /repo {R}/repo")
    sh(f"git -C {R}/repo fetch -q /repo HEAD && git -C {R}/repo checkout -q -f FETCH_HEAD && git -C {R}/repo clean -fdq")
    os.makedirs(R + "/vp", exist_ok=True)
    for f in glob.glob("/opt/vp/*"):
        if os.path.isfile(f):
            t = open(f).read().replace("/repo", R + "/repo").replace("/opt/vp", R + "/vp")
            open(R + "/vp/" + os.path.basename(f), "w").write(t)
CARGO = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
incremental = false
[dependencies]
serde = { version = "1.0", default-features = false, features = ["derive", "std"] }
serde_bytes = { version = "0.11", default-features = false, features = ["std"] }
ser-write = { path = "REPO", default-features = false, features = [WFEATS] }
ser-write-json = { path = "REPO/ser-write-json", default-features = false, features = [JFEATS] }
ser-write-msgpack = { path = "REPO/ser-write-msgpack", default-features = false, features = [JFEATS] }
DEPS"""
DEMO = """#!/bin/bash
# builds main.rs against the tree in the current directory, in a scratch directory, and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
sed "s#REPO#$PWD#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$here/main.rs" "$w/src/main.rs"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS
cd "$w"
cargo build -q --offline PROFILE 2>build.log || { cat build.log; exit 2; }
timeout 120 cargo run -q --offline PROFILE
"""
def make(id):
    s = SEEDS[id]; d = f"{V}/seeded/{id}"
    g = R + "/repo"
    sh(f"git -C {g} checkout -q -f .")
    for f, a, b in s["edits"]:
        p = f"{g}/{f}"; t = open(p).read()
        if t.count(a) != 1: return f"edit matches {t.count(a)} times: {a[:60]!r}"
        open(p, "w").write(t.replace(a, b))
    diff = sh(f"git -C {g} diff").stdout
    tmp = f"{R}/demo-{id}"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    deps = ""; wf = ['"std"'] if s["std"] else []
    for x in s["feats"].split():
        wf.append(f'"{x}"')
        deps += {"arrayvec": 'arrayvec = { version = "0.7", default-features = false }\n', "heapless": 'heapless = { version = "0.9.2", default-features = false }\n',
                 "smallvec": 'smallvec = { version = "1.15", default-features = false }\n',
                 "tinyvec": 'tinyvec = { version = "1.9", default-features = false, features = ["alloc"] }\n'}[x]
    open(tmp + "/Cargo.toml.in", "w").write(CARGO.replace("WFEATS", ", ".join(wf)).replace("JFEATS", '"std"' if s["std"] else "").replace("DEPS", deps))
    open(tmp + "/main.rs", "w").write(s["demo"])
    open(tmp + "/demo.sh", "w").write(DEMO.replace("PROFILE", s["profile"])); os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/meta.json", "w").write(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1))
    open(tmp + "/patch.diff", "w").write(diff)
    r = sh(f"bash {tmp}/demo.sh", cwd=g)
    if r.returncode in (0, 2): return f"demo with the patch exits {r.returncode}: {r.stdout[-1500:]}"
    wout = r.stdout[-300:]
    r = sh(f"bash {R}/vp/build.sh")
    if r.returncode: return "build fails: " + r.stdout[-1500:]
    sh(f"bash {R}/vp/test.sh {R}/out.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); got = set(json.load(open(R + "/out.json"))["passed"])
    if base - got: return f"{len(base-got)} stable tests fail: {sorted(base-got)[:4]}"
    sh(f"git -C {g} checkout -q -f .")
    r = sh(f"bash {tmp}/demo.sh", cwd=g)
    if r.returncode: return f"demo without the patch exits {r.returncode}: {r.stdout[-1500:]}"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    return None
if __name__ == "__main__":
    setup()
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(f"{V}/seeded/{i}/patch.diff")]
    for i in ids:
        e = make(i); print(i, "KEPT" if e is None else "REJECTED " + e, flush=True)
