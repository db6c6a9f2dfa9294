#!/bin/bash
# builds the IR dumper from the committed source (offline); idempotent
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
  clang++-18 $(llvm-config-18 --cxxflags) -O1 tool/irdump.cpp -o build/irdump.tmp -L"$(llvm-config-18 --libdir)" -lLLVM-18
  mv build/irdump.tmp build/irdump
fi
echo "irdump ready"
