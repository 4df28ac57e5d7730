#!/bin/bash
# builds main.rs (beside this file) against the library in the current directory, with its feature
# 'gpl' and the stand-in of nd-triangulation beside this file, and runs it
. /opt/vp/env.sh
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" "$T/data"
cp "$HERE"/*.rs "$T/src/"
cp -r "$HERE/nd-triangulation" "$T/nd-triangulation"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[features]
default = ["gpl"]
gpl = []
[dependencies]
osmgraphing = { path = "$REPO", features = ["gpl"] }
kissunits = "2"
serde = { version = "1", features = ["derive"] }
serde_yaml = "0.8"
[patch.crates-io]
nd-triangulation = { path = "nd-triangulation" }
X
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
(cd "$T" && $CARGO build --offline -q 2>"$T/log") || { tail -n 30 "$T/log"; exit 2; }
cd "$T/data" && timeout 120 "$T/target/debug/demo"
