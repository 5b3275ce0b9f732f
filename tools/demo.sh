#!/bin/bash
# Builds the demonstration against the library in /repo/_build and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
export TMPDIR="$work"
lib=$(find /repo/_build -name libcosim.a | head -1)
g++ -std=c++17 -O1 -w -DBOOST_ALL_DYN_LINK -I"$here" -I/repo/include -I/repo/src -I/repo/tests -I/repo/_build/generated $(find /repo/_build -maxdepth 3 -name include -type d -printf '-I%p ') \
    "$here/demo.cpp" "$lib" -o "$work/demo" \
    -lboost_log -lboost_fiber -lboost_context -lboost_thread -lboost_filesystem -lboost_system -lyaml-cpp -lxerces-c -lzip -lpthread
cd "$work"
timeout ${DEMO_TIMEOUT:-60} "$work/demo"
