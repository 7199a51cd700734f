#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p _build evidence
F="-O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
H=$(cat symx/*.cpp symx/*.h | sha256sum | cut -c1-16)
if [ "$(cat _build/symx.hash 2>/dev/null)" != "$H" ] || [ ! -x _build/symx ]; then
  g++ $F -c symx/symx.cpp -o _build/symx.o &
  g++ $F -c symx/expr.cpp -o _build/expr.o &
  wait %1; wait %2
  g++ _build/symx.o _build/expr.o -o _build/symx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
  mv _build/symx.tmp _build/symx
  echo "$H" > _build/symx.hash
fi
