#!/bin/bash
# development helper: build the monitor
. /opt/vp/env.sh; cd /verif/harness; CARGO_TARGET_DIR=/verif/target/plain RUSTFLAGS="--cfg brec_verif" cargo build --offline 2>&1 | grep -A14 -E '^(error)|src/checks|mon v' | head -${1:-120}
