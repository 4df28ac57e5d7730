#!/bin/bash
# Builds the harness from /repo's current working tree into /verif/target (git-ignored).
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
export CARGO_TARGET_DIR=$VERIF/target CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by time stamps; a copied tree may carry old ones, so decide by content as well
H=$( (cd /repo && find src build.rs Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$VERIF" && find harness shims -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.tree-hash 2>/dev/null)" != "$H" ]; then
  rm -f "$VERIF/target/.tree-hash"
  (cd harness && $CARGO clean --offline -p osmgraphing -p osmg-verif -p nd-triangulation >/dev/null 2>&1)
fi
cd harness || exit 3
$CARGO build --offline --locked --bins 2>"$VERIF/target/build.log" || { tail -n 60 "$VERIF/target/build.log" >&2; echo "HARNESS-ERROR build failed" >&2; exit 3; }
echo "$H" > "$VERIF/target/.tree-hash"
