#!/bin/bash
# Build the engine into $1 (default: /verif/build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build/engine}; mkdir -p "$B"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -O2 -std=c++17 -c "$D/expr.cpp" -o "$B/expr.o" &
g++ -O2 -std=c++17 -I$Z/include -c "$D/solver.cpp" -o "$B/solver.o" &
g++ -O2 -std=c++17 -w $(llvm-config-18 --cppflags) -c "$D/vsym.cpp" -o "$B/vsym.o" &
for p in $(jobs -p); do wait $p; done
g++ "$B"/expr.o "$B"/solver.o "$B"/vsym.o -o "$B/vsym.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
mv "$B/vsym.tmp" "$B/vsym"
