#!/bin/bash
# Builds main.rs against /repo in a scratch directory and runs it.
set -u
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= LANG=C.UTF-8
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp "$d/Cargo.toml" "$d/main.rs" "$t/"
cp /repo/Cargo.lock "$t/Cargo.lock"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$t/target}
cargo build --offline -q --manifest-path "$t/Cargo.toml" || { echo "demo does not build"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
