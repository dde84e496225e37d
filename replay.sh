#!/bin/bash
# replay.sh <replay file>: re-runs the exploration job that failed
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$(pwd)"
tools/build.sh || exit 2
[ -d target/lite ] && tools/build_lite.sh
exec target/release/mc replay "$1"
