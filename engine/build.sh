#!/bin/bash
# builds the AST exporter (offline; needs only the pre-installed clang 18 libraries)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"; mkdir -p "$out"
src="$here/vexport.cpp"; bin="$out/vexport"
if [ -x "$bin" ] && [ "$bin" -nt "$src" ]; then exit 0; fi
L=/usr/lib/llvm-18
clang++-18 -std=c++17 -O1 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$src" -o "$bin.tmp.$$" -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv "$bin.tmp.$$" "$bin"
