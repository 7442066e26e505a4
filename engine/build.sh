#!/bin/bash
# builds the symbolic executor into /verif/build/symex
set -e
cd "$(dirname "$0")"; mkdir -p ../build
[ -x ../build/symex ] && [ -z "$(find . -name '*.?pp' -newer ../build/symex)" ] && exit 0
for f in exec expr solver; do g++ -std=c++17 -O2 -fno-rtti -w $(llvm-config-18 --cppflags 2>/dev/null || llvm-config --cppflags) -c $f.cpp -o ../build/$f.o & done
wait
g++ ../build/{exec,expr,solver}.o -o ../build/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv ../build/symex.tmp ../build/symex
