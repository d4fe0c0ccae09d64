#!/bin/bash
# miri.sh <variant>: the worker on s390x (64 bits, big-endian), interpreted by Miri. Requests on stdin.
T=/verif/target
export MIRI_SYSROOT=$T/plat/miri
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check"
# without inlining the interpreter takes more than twice as long
export RUSTFLAGS="-Zmir-opt-level=3 -Zinline-mir=yes -Zinline-mir-hint-threshold=1000 -Zinline-mir-threshold=500 -Zcross-crate-inline-threshold=yes"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
exec cargo miri run --offline --locked --quiet --release --manifest-path /verif/harness/worker/Cargo.toml \
    --target s390x-unknown-linux-gnu --target-dir $T/lib/$1-miri --features $1 --bin worker
