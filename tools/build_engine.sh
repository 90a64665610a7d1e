#!/bin/bash
# builds /verif/build/symx from the committed sources
set -e
D=$(cd "$(dirname "$0")/.." && pwd); mkdir -p $D/build
CF=$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//'); Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 $CF -fexceptions -w -I$Z/include $D/engine/symx.cpp -o $D/build/symx.tmp$$ $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lgmpxx -lgmp -lpthread
mv $D/build/symx.tmp$$ $D/build/symx
