#!/bin/bash
# Builds the exporter into /verif/build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../../build
mkdir -p "$out"
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include "$here/exporter.cc" \
  -o "$out/exporter.tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/exporter.tmp" "$out/exporter"
