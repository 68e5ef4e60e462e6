#!/bin/bash
# builds the IR extractor
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../build/irx}
mkdir -p "$(dirname "$out")"
clang++-18 -std=c++17 -O1 -w "$d/irx.cpp" -o "$out.tmp.$$" $(llvm-config-18 --cxxflags | sed 's/-std=c++[0-9]*//') -std=c++17 -fno-exceptions $(llvm-config-18 --ldflags) -lLLVM-18
mv "$out.tmp.$$" "$out"
