#!/bin/bash
# Builds main.rs, which lies beside this script, against the crates of the repository in the current directory and
# runs it. Exit 0: the behaviour is as promised.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d)" || exit 3
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "kdemo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
kompact = { path = "$R/core", features = ["distributed"] }
kompact-net = { path = "$R/network" }
T
cd "$W" || exit 3
export CARGO_TARGET_DIR="$R/target/kdemo" CARGO_NET_OFFLINE=true
timeout 240 cargo build -q --offline || exit 3
timeout 50 "$CARGO_TARGET_DIR/debug/kdemo"
