#!/bin/bash
# builds every check offline from the committed files
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTFLAGS="--cfg geos_verif -Awarnings"
cd "$here/harness" && cargo build --release --offline --locked --bins
