#!/bin/bash
# build.sh PROFILE (debug|release) [OPTIONS]: builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${SIM_TARGET:-$PWD/target}" CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
export RUSTFLAGS="-Clink-args=-rdynamic -Awarnings"
case "$1" in
    debug) export RUSTC_WRAPPER="$PWD/wrap.sh"; exec cargo build --offline --locked -q "${@:2}" ;;
    release) export RUSTC_WRAPPER=""; exec cargo build --offline --locked -q --release "${@:2}" ;;
esac
