#!/bin/bash
# cwd: /repo after the build. Exit 0: behaves correctly.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
/usr/bin/clang++-18 -std=c++14 -g0 -O1 -w -I "$PWD/_build/include" -I "$PWD/_build/include/humoto" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -lboost_thread -lboost_system -lpthread || exit 3
cd "$T" && timeout 120 ./demo
