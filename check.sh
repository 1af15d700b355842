#!/bin/bash
# check.sh <PROPERTY> [--thorough] [--seed N] [--scenario G:I] [--budget SECONDS]
# Builds the monitors together with /repo's current working tree, then runs one check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
set -u
cd "$(dirname "$0")" || exit 2
export TMON_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p out evidence
build() {
    if ! cargo build --offline --manifest-path harness/Cargo.toml >out/build.log 2>&1; then
        echo "BUILD FAILED (see $PWD/out/build.log)"
        tail -30 out/build.log
        exit 2
    fi
}
case "${1:-}" in
build) build; exit 0 ;;
"") echo "usage: $0 <PROPERTY> [--thorough] [--seed N] [--scenario G:I]" >&2; exit 2 ;;
esac
build
if [ "$1" = C23 ]; then
    HOST=x86_64-unknown-linux-gnu
    sanitize() { # kind extra-args
        local kind=$1
        shift
        if ! RUSTFLAGS="-Zsanitizer=$kind" CARGO_TARGET_DIR="$PWD/target/san-$kind" \
            cargo +nightly build --offline --manifest-path harness/Cargo.toml --target $HOST "$@" >out/build-$kind.log 2>&1; then
            echo "BUILD FAILED (see $PWD/out/build-$kind.log)"
            tail -30 out/build-$kind.log
            exit 2
        fi
    }
    sanitize thread -Zbuild-std
    sanitize address
    export TMON_SAN=thread,address
    export TMON_SAN_EXE="$PWD/target/san-thread/$HOST/debug/tmon,$PWD/target/san-address/$HOST/debug/tmon"
fi
exec ./target/debug/tmon "$@"
