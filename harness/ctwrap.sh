#!/bin/bash
# RUSTC_WRAPPER for the traced build: adds SanitizerCoverage to the crate under
# test and to the shim (the generic entry points are instantiated there), and to
# nothing else.
rustc=$1
shift
case " $* " in
*" --crate-name ntrust_native "* | *" --crate-name shim "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$rustc" "$@" ;;
esac
