#!/bin/bash
# Warm build of every harness crate (both feature sets), offline.
cd "$(dirname "$0")/sym" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings --cfg ckb_zkp_verif"
rc=0
for cfg in seq par; do
  for d in h-*; do
    f=""; [ $cfg = par ] && f="--features parallel"
    (cd "$d" && cargo build --offline -q -p "$d" --target-dir ../target/$cfg $f) || rc=1
  done
done
exit $rc
