#!/bin/sh
# RUSTC_WRAPPER: adds edge-coverage callbacks (used as scheduling points and for the coverage
# numbers in the evidence) to the `polling` crate only; everything else is compiled as is.
# share-generics=n keeps instrumented generic code out of the harness itself.
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = polling ]; then
        RUSTC_BOOTSTRAP=1 exec "$@" -Zshare-generics=n -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-pc-table -Ccodegen-units=1 --cap-lints allow
    fi
    prev=$a
done
exec "$@"
