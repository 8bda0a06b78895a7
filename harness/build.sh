#!/bin/bash
# build.sh [CONFIG...]: builds the harness against /repo's working tree, one target directory per
# backend configuration, in parallel.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER=$PWD/wrap.sh CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
pids=()
for c in ${*:-epoll pipe poll}; do
    case $c in
        epoll) f= ;;
        pipe) f="--cfg polling_test_epoll_pipe" ;;
        poll) f="--cfg polling_test_poll_backend" ;;
        *) exit 2 ;;
    esac
    RUSTFLAGS="--cfg rustix_use_libc $f" cargo build --offline --locked --target-dir "target-$c" \
        >"build-$c.log" 2>&1 &
    pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || { cat build-*.log | grep -E '^(error|warning: unused)' -A8 | head -60; }
exit $rc
