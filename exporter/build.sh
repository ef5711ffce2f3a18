#!/bin/bash
# Builds the AST exporter into /verif/build (git-ignored).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
if [ "$out/exporter" -nt "$here/exporter.cpp" ]; then exit 0; fi
exec 9>"$out/.lock"; flock 9
if [ "$out/exporter" -nt "$here/exporter.cpp" ]; then exit 0; fi
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -fno-exceptions \
  -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -Wno-deprecated-declarations "$here/exporter.cpp" -o "$out/exporter.tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/exporter.tmp" "$out/exporter"
