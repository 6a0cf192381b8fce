#!/bin/bash
# cfgnodes.sh PROFILE (debug|release): builds the nodes of c13.rs, each with other features.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${SIM_TARGET:-$PWD/target}/cfg" CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
export RUSTFLAGS="-Awarnings" RUSTC_WRAPPER=""
mkdir -p "$CARGO_TARGET_DIR/nodes"
opt=(); [ "$1" = release ] && opt=(--release)
while read -r name features; do
    rm -f "$CARGO_TARGET_DIR/nodes/$name-$1.so"
    cargo build --offline --locked -q -p cfgnode --no-default-features --features "$features" "${opt[@]}" || { echo "the configuration \`$name\` ($1) does not build"; exit 1; }
    cp "$CARGO_TARGET_DIR/$1/libcfgnode.so" "$CARGO_TARGET_DIR/nodes/$name-$1.so" || exit 2
done <<LIST
full std,hmac,rsa,derive,rest
default std,hmac,derive
alloc alloc,hmac,rsa
allocmin alloc,derive
bare hmac,rsa,derive
min 
LIST
