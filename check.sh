#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$(pwd)"
T="${2:-${VERIF_TIER:-quick}}"
tools/build.sh || exit 2
[ "$1" = P36 ] && tools/build_lite.sh
exec target/release/mc check "$1" --tier "$T"
