#!/bin/bash
# newbug.sh <id>: in /tmp/bugs/repo (a scratch copy with the change applied): store the diff, run the stable tests there

ID=$1
D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/bugs/repo diff > $D/patch.diff
[ -f $D/demo.sh ] || cp /verif/tools/demo/demo.sh $D/demo.sh
[ -f $D/common.rs ] || cp /verif/tools/demo/common.rs $D/common.rs
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/bugs/repo/target
cd /tmp/bugs/repo
$CARGO test --workspace --features custom --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 > /tmp/bugs/test.log 2>&1 || true
python3 /opt/vp/results.py /tmp/bugs/o.json cargo:/tmp/bugs/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bugs/o.json'))
print('stable tests missing:', [t for t in b['stable'] if t not in o['passed']])
P
echo "demo with the change:"; (cd /tmp/bugs/repo && bash $D/demo.sh; echo "exit $?")
git -C /tmp/bugs/repo stash -q; echo "demo without:"; (cd /tmp/bugs/repo && bash $D/demo.sh; echo "exit $?"); git -C /tmp/bugs/repo stash drop -q
