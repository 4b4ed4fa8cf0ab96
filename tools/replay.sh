#!/bin/bash
# tools/replay.sh FILE: replays a recorded schedule and fault trace against /repo's working tree.
f=$(readlink -f "$1"); cd "$(dirname "$0")/.." || exit 3
export SIM_ROOT=$PWD
k=o; grep -q "^prop C12" "$f" && k=p
bash tools/build.sh $k || { echo "build failed" >&2; exit 3; }
exec "${SIM_BUILD:-$PWD/build}/$k/sim" replay "$f" v
