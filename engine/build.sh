#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../build}"; mkdir -p "$OUT"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
H=$(cat "$D"/engine.cpp "$D"/exec.inc "$D"/ext.inc "$D"/build.sh | sha256sum | cut -c1-16)
if [ -x "$OUT/symx" ] && [ "$(cat "$OUT/symx.key" 2>/dev/null)" = "$H" ]; then exit 0; fi
g++ -O2 -std=c++17 -w -I"$Z3/include" $(/usr/lib/llvm-18/bin/llvm-config --cppflags) -fexceptions "$D/engine.cpp" -o "$OUT/symx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 "$Z3/lib/libz3.so" -Wl,-rpath,"$Z3/lib" -lpthread
mv "$OUT/symx.tmp" "$OUT/symx"; echo "$H" > "$OUT/symx.key"
