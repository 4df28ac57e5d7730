#!/bin/bash
# builds main.rs (beside this file) against the library in the current directory and runs it
. /opt/vp/env.sh
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" "$T/data"
cp "$HERE"/*.rs "$T/src/"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
osmgraphing = { path = "$REPO" }
kissunits = "2"
serde = { version = "1", features = ["derive"] }
serde_yaml = "0.8"
X
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
(cd "$T" && $CARGO build --offline -q 2>"$T/log") || { tail -n 30 "$T/log"; exit 2; }
cd "$T/data" && timeout 120 "$T/target/debug/demo"
