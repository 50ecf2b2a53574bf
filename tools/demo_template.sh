#!/bin/bash
# builds demo.cpp against the objects of the current build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu; M=$L/openmpi
g++ -O1 -w -std=gnu++14 -I/repo/_build/gen/include -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial -isystem $M/include -isystem $M/include/openmpi \
  -o "$T/demo" "$D/demo.cpp" $(find /repo/_build/CMakeFiles/scaleupROMObj.dir -name '*.o') \
  -Wl,-rpath,$L/hdf5/serial:$M/lib $L/hdf5/serial/libhdf5.so $L/libmfem.so $L/libHYPRE.so $L/libmetis.so -lyaml-cpp -llapack -lblas $M/lib/libmpi_cxx.so $M/lib/libmpi.so || exit 4
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
cd "$T" && timeout 200 ./demo
