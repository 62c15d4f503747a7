#!/usr/bin/env python3
"""setup_cmd: build the extractor and the search once (every check builds them again when needed)."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true")
rc = 0
for a in (["--manifest-path", f"{V}/tools/vpx/Cargo.toml", "--target-dir", f"{V}/target/vpx"],
          ["--manifest-path", f"{V}/witness/Cargo.toml", "--target-dir", f"{V}/target/witness"],
          ["--manifest-path", f"{V}/witness/Cargo.toml", "--target-dir", f"{V}/target/witness", "--profile", "rel"],
          ["--manifest-path", f"{V}/witness/Cargo.toml", "--target-dir", f"{V}/target/witness_nostd", "--no-default-features"]):
    r = subprocess.run(["cargo", "build", "--offline", "-q", *a], env=env).returncode
    rc = rc or r
sys.exit(rc)
