#!/bin/bash
# builds the analysers into $1
set -e
cd "$(dirname "$0")"
OUT=${1:-build/bin}
mkdir -p $OUT
F="$(llvm-config-18 --cxxflags) -fexceptions -O1 -Wno-everything"
L="$(llvm-config-18 --ldflags) -lLLVM-18"
clang++-18 $F tools/own.cc -o $OUT/own.$$ $L &
clang++-18 $F tools/irdump.cc -o $OUT/irdump.$$ $L
mv $OUT/irdump.$$ $OUT/irdump
wait $!
mv $OUT/own.$$ $OUT/own
