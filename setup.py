#!/usr/bin/env python3
"""Builds the monitors once, so that dependencies are compiled. Each check builds again what changed."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ)
e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="--cfg brec_verif", CARGO_TARGET_DIR=os.path.join(V, "target", "plain"), RUSTC_WRAPPER="")
e.pop("CARGO_PROFILE_DEV_DEBUG", None)
sys.exit(subprocess.call(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness"), env=e))
