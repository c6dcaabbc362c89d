#!/bin/bash
# Demonstration: builds main.rs against /repo's libraries in a scratch
# directory and runs it. Exit 0: the property's example holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/d/src"
cp "$here/main.rs" "$T/d/src/main.rs"
cp "$here/lock" "$T/d/Cargo.lock"
cat > "$T/d/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stacks-core = { path = "/repo/stacks-core" }
sbtc-core = { path = "/repo/sbtc-core" }
bdk = { version = "0.28.1", features = ["keys-bip39", "rpc"] }
hex = "0.4.3"
serde_json = "1.0"
[profile.dev]
debug = false
X
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
unset RUSTFLAGS
cd "$T/d" || exit 2
cargo build --offline -q 2>"$T/log" || { tail -30 "$T/log"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
