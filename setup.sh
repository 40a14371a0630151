#!/bin/bash
# Build the harness crates once (the checks rebuild incrementally from /repo's working tree).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-1.73}" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg nakamoto_verif"
for c in harness harness-wallet; do
  [ -d "$c" ] && cargo build -q --offline --locked --manifest-path "$c/Cargo.toml" --target-dir "$c/target"
done
exit 0
