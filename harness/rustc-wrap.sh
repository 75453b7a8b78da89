#!/bin/sh
# RUSTC_WRAPPER: adds LLVM sanitizer-coverage callbacks to the crate under test only. The harness
# implements them (src/cov.rs): they count executed blocks (a deterministic work limit instead of a
# clock), give coverage feedback and collect the constants the code compares with.
rustc="$1"
shift
case " $* " in
*" --crate-name clarith "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
*) exec "$rustc" "$@" ;;
esac
