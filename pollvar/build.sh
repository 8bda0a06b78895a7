#!/bin/bash
# build.sh [OS...]: builds the harness against the copies of the library for these systems, in parallel.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER=$PWD/../harness/wrap.sh CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
python3 prepare.py || exit 1
pids=()
for c in ${*:-espidf hermit vita haiku}; do
    RUSTFLAGS="--cfg rustix_use_libc --cfg polling_test_poll_backend --cfg pollsim_other --cfg pollsim_$c" cargo build --offline --locked \
        --manifest-path "gen/harness-$c/Cargo.toml" --target-dir "target-$c" >"build-$c.log" 2>&1 &
    pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || { cat build-*.log | grep -E '^(error|warning: unused)' -A8 | head -60; }
exit $rc
