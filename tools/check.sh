#!/bin/bash
# tools/check.sh PROPERTY [PLANS]: rebuild from /repo's working tree, then search.
# exit 0 held, 1 VIOLATION, 2 not reproducible, 3 build failed
cd "$(dirname "$0")/.." || exit 3
export SIM_ROOT=$PWD
case ${1:-} in C12) k=p ;; *) k=o ;; esac # C12 needs the build that can preempt between basic blocks
bash tools/build.sh $k || { echo "build failed" >&2; exit 3; }
mkdir -p evidence replay
exec "${SIM_BUILD:-$PWD/build}/$k/sim" check "$@"
