#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX="clang++-18"; command -v $CXX >/dev/null || CXX=clang++
LC=llvm-config-18; command -v $LC >/dev/null || LC=llvm-config
FL="-O2 -std=c++17 -w -I$Z/include $($LC --cppflags)"
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here"/*.inc "$here"/build.sh | sha256sum | cut -d' ' -f1)
[ -x "$out/engine" ] && [ "$(cat "$out/engine.stamp" 2>/dev/null)" = "$stamp" ] && exit 0
$CXX $FL -c "$here/expr.cpp" -o "$out/expr.o" &
$CXX $FL -fno-rtti -c "$here/main.cpp" -o "$out/main.o" &
wait %1; wait %2
$CXX "$out/expr.o" "$out/main.o" -o "$out/engine" $($LC --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
rm -f "$out/expr.o" "$out/main.o"
echo "$stamp" > "$out/engine.stamp"
