#!/bin/bash
# check.sh <property>       run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>    run the case recorded in a replay file again
# check.sh setup            build everything that does not depend on the property
#
# Exit 0: held. Exit 1: violated (a VIOLATION line names the replay file).
# Anything else: the check itself could not do its work.
cd /verif || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export VERIF_DIR=/verif
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
T=/verif/target
variants="ntruhps2048509 ntruhps2048677 ntruhps4096821 ntruhrss701"
mkdir -p $T/out $T/log

id=$1
if [ "$id" = replay ]; then
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
fi

exec 9>$T/lock
flock 9

# What the libraries are built from, by content: modification times are not trusted.
stamp=$(cd /repo && find src examples Cargo.toml build.rs /verif/harness -type f -not -path '*/target/*' -print0 |
    sort -z | xargs -0 sha256sum | sha256sum)
if [ "$stamp" != "$(cat $T/stamp 2>/dev/null)" ]; then
    rm -rf /verif/target/lib /verif/target/c15 /verif/target/kat /verif/target/out
    mkdir -p $T/out
    echo "$stamp" >$T/stamp
fi

fail() {
    echo "check.sh: $1 failed to build" >&2
    cat "$2" >&2
    exit 2
}
# so <variant> <label> <profile> <features>: one build of the shim
so() {
    local d=$T/lib/$1-$2
    cargo build --offline --locked --quiet --manifest-path harness/shim/Cargo.toml \
        --target-dir $d --profile $3 --features $1$4 >$T/log/$1-$2 2>&1 &&
        cp $d/$3/libshim.so $T/out/$1-$2.so.new && mv $T/out/$1-$2.so.new $T/out/$1-$2.so
}
traced() {
    RUSTC_WRAPPER=/verif/harness/ctwrap.sh CARGO_PROFILE_TRACED_OPT_LEVEL=$2 so $1 traced$2 traced ,ct
}
kat() {
    cargo build --offline --locked --quiet --manifest-path harness/kat/Cargo.toml --release \
        --target-dir $T/kat/$1 --features $1 >$T/log/$1-kat 2>&1 &&
        cp $T/kat/$1/release/katkem $T/out/katkem-$1.new && mv $T/out/katkem-$1.new $T/out/katkem-$1
}
NIGHTLY=nightly-x86_64-unknown-linux-gnu
HOST=x86_64-unknown-linux-gnu
worker() {
    cargo build --offline --locked --quiet --manifest-path harness/worker/Cargo.toml --release --bin worker \
        --target-dir $T/lib/$1-worker --features $1 >$T/log/$1-worker 2>&1 &&
        cp $T/lib/$1-worker/release/worker $T/out/worker-$1.new && mv $T/out/worker-$1.new $T/out/worker-$1
}
# the same without optimisation
worker0() {
    CARGO_PROFILE_RELEASE_OPT_LEVEL=0 \
        cargo build --offline --locked --quiet --manifest-path harness/worker/Cargo.toml --release --bin worker \
        --target-dir $T/lib/$1-worker0 --features $1 >$T/log/$1-worker0 2>&1 &&
        cp $T/lib/$1-worker0/release/worker $T/out/worker0-$1.new && mv $T/out/worker0-$1.new $T/out/worker0-$1
}
asan() {
    RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="-Zsanitizer=address" \
        cargo build --offline --locked --quiet --manifest-path harness/worker/Cargo.toml --release --bin worker \
        --target $HOST --target-dir $T/lib/$1-asan --features $1 >$T/log/$1-asan 2>&1 &&
        cp $T/lib/$1-asan/$HOST/release/worker $T/out/worker-$1-asan.new &&
        mv $T/out/worker-$1-asan.new $T/out/worker-$1-asan
}
# The standard library for wasm32, from the sources that come with the nightly toolchain.
wasm_std() {
    local W=wasm32-unknown-unknown R=$T/plat/wasm
    [ -e $R/ok ] && return
    local N L
    N=$(RUSTUP_TOOLCHAIN=$NIGHTLY rustc --print sysroot) && L=$N/lib/rustlib/src/rust/library || return
    rm -rf /verif/target/plat/wasm
    mkdir -p $R/lib/rustlib/$W/lib
    RUSTUP_TOOLCHAIN=$NIGHTLY __CARGO_DEFAULT_LIB_METADATA=verif \
        RUSTFLAGS="-Zforce-unstable-if-unmarked -Cembed-bitcode=yes" \
        cargo build --quiet --release --offline --locked --manifest-path $L/sysroot/Cargo.toml \
        --target $W --target-dir $R/build --config 'source.crates-io.replace-with="vendored-sources"' \
        --config "source.vendored-sources.directory=\"$L/vendor\"" || return
    find $R/build/$W \( -name '*.rlib' -o -name 'lib*.rmeta' \) -exec cp {} $R/lib/rustlib/$W/lib/ \;
    rm -rf /verif/target/plat/wasm/build
    ln -s $N/lib/rustlib/$HOST $R/lib/rustlib/$HOST && touch $R/ok
}
wasm() {
    RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="--sysroot $T/plat/wasm" \
        cargo build --offline --locked --quiet --manifest-path harness/worker/Cargo.toml --release --lib \
        --target wasm32-unknown-unknown --target-dir $T/lib/$1-wasm --features $1 &&
        cp $T/lib/$1-wasm/wasm32-unknown-unknown/release/worker.wasm $T/out/$1.wasm.new && mv $T/out/$1.wasm.new $T/out/$1.wasm
}
all_wasm() {
    wasm_std || return
    local v p=
    for v in $variants; do
        wasm $v &
        p="$p $!"
    done
    for v in $p; do wait $v || return; done
}
# The standard library for s390x as Miri wants it; then the workers (an empty run builds them).
all_miri() {
    if [ ! -e $T/plat/miri/ok ]; then
        RUSTUP_TOOLCHAIN=$NIGHTLY MIRI_SYSROOT=$T/plat/miri cargo miri setup --target s390x-unknown-linux-gnu &&
            touch $T/plat/miri/ok || return
    fi
    local v p=
    for v in $variants; do
        harness/worker/miri.sh $v </dev/null &
        p="$p $!"
    done
    for v in $p; do wait $v || return; done
}
declare -A jobs
start() { # <log name> <command...>
    local l=$1
    shift
    "$@" &
    jobs[$l]=$!
}
start driver cargo build --offline --locked --quiet --release --manifest-path harness/driver/Cargo.toml \
    --target-dir $T/driver 2>$T/log/driver
for v in $variants; do
    start $v-plain so $v plain plain
    start $v-checked so $v checked checked
    if [ "$id" = C14 ] || [ "$id" = setup ]; then
        start $v-worker0 worker0 $v
        for l in 0 1 3; do start $v-traced$l traced $v $l; done
    fi
    if [ "$id" = C16 ] || [ "$id" = setup ]; then start $v-kat kat $v; fi
    case $id in C14 | C20 | setup) start $v-worker worker $v ;; esac
    case $id in C20 | setup) start $v-asan asan $v ;; esac
done
case $id in
C18 | setup)
    start wasm all_wasm >$T/log/wasm 2>&1
    start miri all_miri >$T/log/miri 2>&1
    ;;
esac
for l in "${!jobs[@]}"; do
    wait ${jobs[$l]} || fail $l $T/log/$l
done
[ "$id" = setup ] && exit 0

if [ "$1" = replay ]; then
    set -- replay "$2"
else
    set -- check "$1"
    rm -f "/verif/evidence/$id.json"
    grep -h "^KNOWN-FINDING: property=$id " /verif/known_findings.txt
fi
limit=$((870 - SECONDS))
[ "$VERIF_TIER" = thorough ] && limit=7200
timeout -k 10 $limit $T/driver/release/driver "$@"
rc=$?
[ $rc -le 1 ] && exit $rc
echo "check.sh: driver ended with $rc" >&2
exit 2
