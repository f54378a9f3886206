#!/bin/bash
# Builds the AST extractor into /verif/.cache/extract (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p ../.cache
H=$(sha256sum extract.cc | cut -c1-16)
[ -x ../.cache/extract ] && [ "$(cat ../.cache/extract.hash 2>/dev/null)" = "$H" ] && exit 0
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cc -o ../.cache/extract.tmp.$$ $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
mv ../.cache/extract.tmp.$$ ../.cache/extract
echo $H > ../.cache/extract.hash
