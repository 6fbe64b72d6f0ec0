#!/bin/bash
# Builds the extractor into /verif/.build (idempotent, offline).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../.build"; mkdir -p "$out"
if [ -x "$out/px" ] && [ "$out/px" -nt "$here/px.cpp" ]; then exit 0; fi
exec 9>"$out/lock"; flock 9
if [ -x "$out/px" ] && [ "$out/px" -nt "$here/px.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18
clang++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/px.cpp" -o "$out/px.tmp" -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$L/lib
mv "$out/px.tmp" "$out/px"
