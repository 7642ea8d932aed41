#!/bin/bash
# Builds the AST extractor with the installed clang 18 libraries. Offline.
set -e
cd "$(dirname "$0")"
out=${1:-../.build/extract}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt extract.cpp ]; then exit 0; fi
tmp="$out.tmp.$$"
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS extract.cpp -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out"
