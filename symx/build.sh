#!/bin/bash
# builds the engine into /verif/build/symx (nothing else is written)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="$D/../build"; mkdir -p "$B"
OUT="$B/symx"
if [ -x "$OUT" ] && [ -z "$(find "$D" -maxdepth 1 \( -name '*.cpp' -o -name '*.h' -o -name '*.inc' \) -newer "$OUT" | grep -v -E 'rt[0-9a-z_]*\.cpp|symx\.h' | head -1)" ]; then exit 0; fi
T="$(mktemp "$B/symx.XXXXXX")"
g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/symx.cpp" -o "$T" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
chmod 755 "$T"; mv -f "$T" "$OUT"
