#!/bin/sh
# builds the executor and its runtime bitcode into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
g++ -O2 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -o "$O/psisym.tmp" "$D/psisym.cpp" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$O/psisym.tmp" "$O/psisym"
F="-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-builtin -w -g1 -emit-llvm -c"
clang-18 $F "$D/psirtc.c" -o "$O/psirtc.bc"
clang++-18 -std=gnu++14 $F -fno-access-control -I"$D/inc" -I"$D/../harness" "$D/psirt.cpp" -o "$O/psirt.bc"
