#!/bin/bash
# builds the exporter into $1 (default /verif/build/bflx)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/bflx}
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I$L/include "$here/bflx.cpp" -o "$out.tmp.$$" /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
