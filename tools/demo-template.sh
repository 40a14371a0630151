#!/bin/bash
# Builds the small program beside this script against the repository in the current directory
# and runs it. Exit 0: the property holds.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.73 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nakamoto-common = { path = "$repo/common" }
nakamoto-chain = { path = "$repo/chain" }
nakamoto-net = { path = "$repo/net" }
nakamoto-net-poll = { path = "$repo/net/poll" }
nakamoto-p2p = { path = "$repo/p2p" }
nakamoto-client = { path = "$repo/client" }
crossbeam-channel = "0.5.6"
fastrand = "1.3.5"
log = "0.4"
TOML
cd "$work" || exit 3
if ! cargo build -q --offline --target-dir "$work/target" > "$work/log" 2>&1; then
  tail -30 "$work/log"; exit 3
fi
timeout 120 "$work/target/debug/demo"
