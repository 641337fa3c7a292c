#!/bin/bash
# Builds all checks once (each check builds its own binary again).
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target" RUSTC_WRAPPER="$V/harness/rustc-wrap.sh" CARGO_NET_OFFLINE=true RUSTFLAGS=""
mkdir -p "$V/target" "$V/evidence" "$V/out"
cargo build -q --offline --manifest-path "$V/harness/Cargo.toml" --bins || exit 1
env -u RUSTC_WRAPPER CARGO_TARGET_DIR="$V/target-cli" cargo build -q --offline --manifest-path /repo/Cargo.toml --bin layout
