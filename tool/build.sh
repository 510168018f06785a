#!/bin/bash
# Builds the fact extractor into $1 (a path outside /repo).
set -euo pipefail
here="$(cd "$(dirname "$0")" && pwd)"
L=/usr/lib/llvm-18
clang++-18 -O0 -std=c++17 -fno-exceptions -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I$L/include -w "$here/extract.cpp" \
  -o "$1" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
