#!/bin/bash
# Build the IR dumper (the only compiled part of the framework).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
LC=llvm-config-18; command -v $LC >/dev/null || LC=llvm-config
$CXX $($LC --cxxflags) -fexceptions -O1 tool/irdump.cpp -o build/irdump.tmp $($LC --ldflags --libs)
mv build/irdump.tmp build/irdump
