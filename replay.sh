#!/bin/bash
# Usage: replay.sh <replay file>: rebuild against /repo and re-run one recorded case.
set -u
F="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-1.73}" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg nakamoto_verif"
CRATE=harness; BIN=nkverif
grep -q '"property": "C26"' "$F" && CRATE=harness-wallet && BIN=nkwallet
cargo build -q --offline --locked --manifest-path "$CRATE/Cargo.toml" --target-dir "$CRATE/target" || exit 2
exec "$CRATE/target/debug/$BIN" --replay "$F"
