#!/bin/bash
# builds the IR exporter used by every check (setup_cmd)
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irx ] || [ src/irx.cpp -nt build/irx ]; then
  clang++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//') src/irx.cpp -o build/irx.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18
  mv build/irx.tmp.$$ build/irx
fi
