#!/bin/bash
# Builds demo.rs (beside this script) against the repository in the current
# directory and runs it, in a scratch directory.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
sed "s#@REPO@#$REPO#g" "$HERE/demo.toml" > "$T/Cargo.toml"
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 3
cargo build --offline -q 2> "$T/log" || { tail -30 "$T/log"; exit 3; }
"$T/target/debug/demo"
