#!/bin/bash
# Builds demo.cpp (beside this file) against the library built in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
MAIN=/opt/bezdeps/main/lib/python3.12/site-packages/cmeel.prefix
HCD=/opt/bezdeps/hcd/lib/python3.12/site-packages/cmeel.prefix
export LD_LIBRARY_PATH="$PWD/_build:$MAIN/lib:$HCD/lib"
out="$(mktemp)" || exit 2
trap 'rm -f "$out"' EXIT
g++ -O0 -w -std=gnu++17 -DNDEBUG -DCURVES_WITH_PINOCCHIO_SUPPORT -DUSE_GLPK_SOLVER=1 \
  -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 \
  -I"$here" -I"$PWD/include" -I"$PWD/_build/include" -isystem "$MAIN/include" -isystem "$MAIN/include/eigen3" -isystem "$HCD/include" \
  -isystem "$HCD/include/cddlib" "$here/demo.cpp" -o "$out" \
  -L"$PWD/_build" -L"$MAIN/lib" -L"$HCD/lib" -lhpp-bezier-com-traj -lhpp-centroidal-dynamics || exit 2
timeout 250 "$out"
