#!/bin/bash
# Builds the simulator together with /repo's current working tree (incremental).
# build.sh [o|p|all]: o the plain build, p the one that can preempt tasks between basic blocks (default: both)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
BASE=${SIM_BUILD:-$V/build}
REPO=${BLISS_REPO:-/repo}
build() {
  local B=$BASE/$1 T=OFF
  [ "$1" = p ] && T=ON
  mkdir -p "$B"
  exec 9>"$B/.lock"; flock 9
  if [ ! -f "$B/build.ninja" ]; then
    cmake -S "$V/sim" -B "$B" -G Ninja -DBLISS_REPO="$REPO" -DSIM_TRACE=$T -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="-O1 -g1 -DFMT_DEPRECATED_OSTREAM" \
      -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON \
      -Dexternal_capnproto_DIR=/opt/vp/deps/cmake -Dfmtlib_DIR=/opt/vp/deps/cmake -Dnanobind_DIR=/opt/vp/deps/python/nanobind/cmake \
      -DPython_EXECUTABLE=/usr/bin/python3 -DCCACHE_PROGRAM= -DWITH_CUDA=OFF >"$B/configure.log" 2>&1 || { cat "$B/configure.log" >&2; return 3; }
  fi
  nice cmake --build "$B" --target sim -- -j 8 >"$B/build.log" 2>&1 || { tail -60 "$B/build.log" >&2; return 3; }
}
case ${1:-all} in
  all) build o && build p ;;
  *) build "$1" ;;
esac
