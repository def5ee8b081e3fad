#!/bin/bash
# builds the symbolic executor into /verif/build/symx (offline; LLVM 18 C++ API + z3 5.3)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="$D/../build"; mkdir -p "$B"
VT=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -x "$B/symx" ] && [ -z "$(find "$D" -newer "$B/symx" -type f | head -1)" ]; then exit 0; fi
g++ -std=gnu++17 -O2 -w -I"$D" $(llvm-config-18 --cppflags) -I$VT/include "$D/symx.cpp" -o "$B/symx.tmp" \
  $(llvm-config-18 --ldflags) -lLLVM-18 -L$VT/lib -l:libz3.so -Wl,-rpath,$VT/lib
mv "$B/symx.tmp" "$B/symx"
