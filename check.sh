#!/bin/bash
# check.sh <property> <quick|thorough> [--case SPACE:i,j,..]   builds the explorer from /repo's working tree and runs it
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH="$HOME/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
mkdir -p target evidence
features=; [ "$1" = G17 ] && features="--features backend"
if ! (cd harness && cargo build --release --offline --locked $features) >target/build-$$.log 2>&1; then
    tail -40 target/build-$$.log; rm -f "$PWD/target/build-$$.log"; echo "error: the harness does not build"; exit 2
fi
rm -f "$PWD/target/build-$$.log"
# the filters have code of their own for the feature no_denormals
if [ "$1" = build ] || [ "$1" = D05 ] || [ "$1" = U04 ]; then
    export MC_ALSO="$PWD/target/nodenormals/release/mc"
    if ! (cd harness && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nodenormals" cargo build --release --offline --locked --features nodenormals) >target/build-$$.log 2>&1; then
        tail -40 target/build-$$.log; rm -f "$PWD/target/build-$$.log"; echo "error: the harness does not build"; exit 2
    fi
    rm -f "$PWD/target/build-$$.log"
fi
[ "$1" = build ] && exit 0
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
case "$2" in nodenormals:*)
    MC_VARIANT=nodenormals: exec "$MC_ALSO" "$id" "$tier" "$PWD" --case "${2#nodenormals:}" ;;
esac
exec ./target/release/mc "$id" "$tier" "$PWD" "$@"
