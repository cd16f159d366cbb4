#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 = property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo-recent.lock" "$T/Cargo.lock"
FEATURES=$(cat "$D/features" 2>/dev/null || echo '"std", "rand", "serde", "base64", "miniscript", "silent-payments"')
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
psbt-v2 = { path = "$R", default-features = false, features = [$FEATURES] }
bitcoin = { version = "0.32.8", default-features = false, features = ["std", "rand-std"] }
serde_json = "1.0.68"
[workspace]
E
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$R/target/demo" RUSTC_WRAPPER=
cd "$T" || exit 3
cargo build --offline --quiet 2> "$T/log" || { tail -40 "$T/log"; exit 3; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
