#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then search for a violation.
# exit 0: held on everything explored; exit 1: VIOLATION line; 3: the check itself could not run
cd "$(dirname "$0")" || exit 3
bash build.sh || exit 3
exec target/debug/vcase run "$1" "${2:-quick}" "$PWD"
