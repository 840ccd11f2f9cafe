#!/bin/sh
# Builds the typed-AST extractor (clang 18 libTooling) into build/.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
out="$here/build/extract"
h=$(sha1sum "$here/tool/extract.cpp" | cut -d' ' -f1)
if [ -x "$out" ] && [ "$(cat "$out.sha" 2>/dev/null)" = "$h" ]; then exit 0; fi
tmp="$out.$$"
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/tool/extract.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18 -l:libLLVM-18.so
mv "$tmp" "$out"
echo "$h" > "$out.sha"
