#!/bin/bash
# Compile all of /repo's C++ tests (including the driver and CLI tests that need stim) against shim/stim.h
# and run them: the conformance check of the stim stand-in. Needs the installed googletest.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
src=${VERIF_REPO:-/repo}/src
out=${1:-$here/build/upstream}
mkdir -p "$out"
ls "$src"/pymatching/**/*.cc >/dev/null 2>&1 || true
find "$src" -name '*.cc' ! -name '*.perf.cc' ! -name '*.pybind.cc' ! -path "$src/main.cc" > "$out/list"
xargs -P8 -I{} bash -c 'o="'"$out"'/$(echo {} | tr / _).o"; if [ ! -f "$o" ] || [ -n "$(find "'"$src"'" -newer "$o" -name "*.[hci]*" -print -quit)" ]; then g++ -std=c++20 -O1 -w -I"'"$here"'/shim" -I"'"$src"'" -c {} -o "$o"; fi' < "$out/list"
g++ "$out"/*.o -lgtest -lgtest_main -lpthread -o "$out/tests"
cd "${VERIF_REPO:-/repo}" && "$out/tests" --gtest_brief=1
