#!/bin/bash
# check.sh PROPERTY quick|thorough : rebuild from /repo, explore, judge.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
bash tools/build.sh || { echo "check $1: the simulator does not build against /repo" >&2; exit 2; }
. tools/env.sh
exec "$VR/build/debug/simcli" check "$1" "$tier"
