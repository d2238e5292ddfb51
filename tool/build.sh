#!/bin/bash
# builds the fact extractor into $1 (offline; clang 18 development libraries)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/extract}"
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18/lib
tmp="$out.tmp.$$"
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$tmp" $L/libclang-cpp.so.18.1 $L/libLLVM-18.so -Wl,-rpath,$L
mv -f "$tmp" "$out"
