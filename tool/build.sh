#!/bin/bash
# builds /verif/build/ggdump from tool/ggdump.cpp
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
OUT=$D/build/ggdump
[ -x "$OUT" ] && [ "$OUT" -nt "$D/tool/ggdump.cpp" ] && exit 0
CFG=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
g++ -O1 -w -fno-rtti $($CFG --cxxflags) "$D/tool/ggdump.cpp" -o "$OUT.tmp.$$" -L$($CFG --libdir) -Wl,-rpath,$($CFG --libdir) -lLLVM-18
mv "$OUT.tmp.$$" "$OUT"
