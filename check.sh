#!/bin/bash
# check.sh ID            runs the check of a property (VERIF_TIER, VERIF_SEED)
# check.sh ID replay F   replays one saved failure
# Rebuilds the crate under test from /repo's working tree.
id="$1"; shift
V="$(cd "$(dirname "$0")" && pwd)"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_TARGET_DIR="$V/target" RUSTC_WRAPPER="$V/harness/rustc-wrap.sh"
export VP_VERIF_DIR="$V" CARGO_NET_OFFLINE=true RUSTFLAGS=""
mkdir -p "$V/target" "$V/evidence" "$V/out"
# Never trust time stamps for the code under test.
rm -rf "$V"/target/debug/.fingerprint/layout-rs-* "$V"/target/debug/.fingerprint/vp-*
if ! cargo build -q --offline --manifest-path "$V/harness/Cargo.toml" --bin "$bin" >"$V/out/build-$id.log" 2>&1; then
  cat "$V/out/build-$id.log"
  echo "ERROR property=$id the harness does not build against /repo" >&2
  exit 2
fi
if [ "$id" = C22 ]; then
  # The command line tool itself, as its users get it.
  rm -rf "$V"/target-cli/debug/.fingerprint/layout-* 
  if ! env -u RUSTC_WRAPPER CARGO_TARGET_DIR="$V/target-cli" cargo build -q --offline --manifest-path /repo/Cargo.toml --bin layout >"$V/out/build-cli.log" 2>&1; then
    cat "$V/out/build-cli.log"
    echo "ERROR property=$id the command line tool does not build" >&2
    exit 2
  fi
  export VP_CLI="$V/target-cli/debug/layout"
fi
exec "$V/target/debug/$bin" "$@"
