#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="${1:-$D/../build}"; mkdir -p "$O"
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
CXX="g++ -std=c++17 -O2 -g -w"
LF="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//; s/-fno-rtti//')"
$CXX -c "$D/expr.cpp" -o "$O/expr.o" & 
$CXX -I"$Z/include" -c "$D/solver.cpp" -o "$O/solver.o" &
$CXX $LF -fexceptions -I"$Z/include" -c "$D/exec.cpp" -o "$O/exec.o" &
wait %1; wait %2; wait %3
$CXX "$O/expr.o" "$O/solver.o" "$O/exec.o" -o "$O/vex.tmp" -L"$Z/lib" -lz3 -Wl,-rpath,"$Z/lib" $(llvm-config-18 --ldflags --libs) -lgmpxx -lgmp
mv "$O/vex.tmp" "$O/vex"
