#!/bin/bash
# builds demo.cpp against the libraries of the current build and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=$PWD/_build
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OMPI_CXX=g++ OMP_DYNAMIC=false
mpicxx -std=c++14 -fopenmp -msse4.2 -O2 -UNDEBUG -w -I"$PWD/include" -I"$PWD/src" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L"$B/lib" \
  -Wl,--start-group $(ls "$B"/lib/*.a) -Wl,--end-group
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
cd "$T"
"$T/demo"
