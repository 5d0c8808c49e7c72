#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine), unless it is already there for these sources.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/engine}
mkdir -p "$out"
key=$(cat "$here"/*.h "$here"/*.cpp "$here"/build.sh | sha256sum | cut -c1-16)
[ -x "$out/vfsym" ] && [ "$(cat "$out/key" 2>/dev/null)" = "$key" ] && exit 0
L=/usr/lib/llvm-18
F="-std=c++17 -O2 -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
tmp=$(mktemp -d "$out/tmp.XXXXXX")
g++ $F -c "$here/expr.cpp" -o "$tmp/expr.o" &
g++ $F -c "$here/exec.cpp" -o "$tmp/exec.o"
wait
g++ "$tmp/expr.o" "$tmp/exec.o" -o "$tmp/vfsym" -L$L/lib -Wl,-rpath,$L/lib -lLLVM-18 -lz3 -lpthread
mv "$tmp/vfsym" "$out/vfsym"
echo "$key" > "$out/key"
rm -rf "$tmp"
