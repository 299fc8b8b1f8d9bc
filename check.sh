#!/bin/bash
# check.sh <ID> <quick|thorough>: rebuild the code under test from /repo's working tree and decide one property
id="$1"; tier="${2:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" GV_DIR="$here"
export RUSTFLAGS="--cfg geos_verif -Awarnings"
export VERIF_SEED="${VERIF_SEED:-1}"
unset GV_FACTOR
cd "$here/harness" || exit 2
# never trust time stamps: the code under test is always recompiled
cargo clean --release --offline -p geos-rs >/dev/null 2>&1
log="$(mktemp)"
if ! cargo build --release --offline --locked --bin "$bin" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "$id: the code under test or the harness does not build" >&2
    exit 2
fi
rm -f "$log"
"$here/target/release/$bin" "$tier"
