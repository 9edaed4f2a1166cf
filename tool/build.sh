#!/bin/bash
# builds the extractor into $1 (default: /verif/build/extract)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/extract}"
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
clang++ -std=c++17 -fno-rtti -O1 -w -I$L/include "$here/extract.cpp" -o "$out.tmp.$$" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so -Wl,-rpath,$L/lib
mv "$out.tmp.$$" "$out"
