#!/bin/bash
# Builds the simulation against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
python3 prepare.py || exit 1
cargo build --offline --locked >build.log 2>&1 && exit 0
grep -E '^error' -A8 build.log | head -60
exit 1
