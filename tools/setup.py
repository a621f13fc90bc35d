#!/usr/bin/env python3
"""Build the extractor and warm the harness builds (the checks rebuild whatever is missing)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.91.1", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
r = subprocess.run(["cargo", "build", "--offline", "--release", "--locked", "--target-dir", V + "/.target/extract"], cwd=V + "/extract", env=e).returncode
for c in ("analysis", "server"):
    lock = V + "/harness/%s/Cargo.lock" % c
    saved = open(lock, "rb").read()
    subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", V + "/.target/h"], cwd=V + "/harness/" + c, env=e)
    if open(lock, "rb").read() != saved: open(lock, "wb").write(saved)
sys.exit(r)
