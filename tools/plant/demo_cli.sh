#!/bin/bash
# Demonstration: builds the command line tool from /repo in a scratch directory
# and runs demo.py against it. Exit 0: the property's example holds.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/d"
cp "$here/lock" "$T/d/Cargo.lock"
cat > "$T/d/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
anyhow = "1.0"
bdk = { version = "0.28.1", features = ["keys-bip39", "rpc"] }
clap = { version = "4.1.1", features = ["derive"] }
hex = "0.4.3"
regex = "~1.8.4"
sbtc-core = { path = "/repo/sbtc-core" }
serde = "1.0"
serde_json = "1.0"
stacks-core = { path = "/repo/stacks-core" }
url = { version = "2.4.1", features = ["serde"] }
[[bin]]
name = "sbtc"
path = "/repo/sbtc-cli/src/main.rs"
[profile.dev]
debug = false
X
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
unset RUSTFLAGS
cd "$T/d" || exit 2
cargo build --offline -q 2>"$T/log" || { tail -30 "$T/log"; exit 2; }
timeout 120 python3 "$here/demo.py" "$CARGO_TARGET_DIR/debug/sbtc"
