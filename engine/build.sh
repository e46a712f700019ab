#!/bin/bash
# Builds the analyser into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"; out=${1:-../build}; mkdir -p $out
F="-std=c++17 -O2 -g0 -fexceptions -Wno-misleading-indentation -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ $F effects.cpp -o $out/effects.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 & g++ $F -c terms.cpp -o $out/terms.o & g++ $F -c mem.cpp -o $out/mem.o & g++ $F -c lessai.cpp -o $out/lessai.o & wait %1 && wait %2 && wait %3 && wait %4
g++ $out/terms.o $out/mem.o $out/lessai.o -o $out/lessai.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 && mv $out/lessai.tmp $out/lessai && mv $out/effects.tmp $out/effects
