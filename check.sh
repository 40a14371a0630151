#!/bin/bash
# Usage: check.sh <property> [quick|thorough]
# Rebuilds the harness against /repo's working tree and runs the property's check.
# Exit codes: 0 held, 1 violation (with a VIOLATION line), 2/3 no answer.
set -u
cd "$(dirname "$0")" || exit 2
ID="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-1.73}" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg nakamoto_verif"
CRATE=harness
BIN=nkverif
case "$ID" in
  C26) CRATE=harness-wallet; BIN=nkwallet ;;
esac
LOG="$(mktemp)"
if ! cargo build --offline --locked --manifest-path "$CRATE/Cargo.toml" --target-dir "$CRATE/target" >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2
  rm -f "$LOG"
  echo "check.sh: build failed" >&2
  exit 2
fi
rm -f "$LOG"
exec "$CRATE/target/debug/$BIN" "$ID"
