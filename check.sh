#!/bin/bash
# ./check.sh <property>                      the check (VERIF_SEED, VERIF_TIER)
# ./check.sh <property> --replay <file>      one saved case again
# ./check.sh --build                         only build
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export ECSFUZZ_ROOT=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS RUSTC_WRAPPER
mkdir -p .build
log=.build/build.log
target=x86_64-unknown-linux-gnu
if ! CARGO_TARGET_DIR=$PWD/.build/t RUSTFLAGS="-Zsanitizer=address --cfg asan" \
    cargo build --offline --manifest-path harness/Cargo.toml --target $target >$log 2>&1; then
    grep -A12 '^error' $log | head -60
    echo "the harness does not build against /repo"
    exit 2
fi
bin=.build/t/$target/debug/ecsfuzz
case $1 in
--build) exit 0 ;;
esac
if [ "$2" = --replay ]; then
    exec $bin replay "$1" "$3"
fi
exec $bin check "$1"
