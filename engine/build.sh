#!/bin/bash
# build.sh OUT: compile the engine (bash)
set -e
cd "$(dirname "$0")"
OUT=$1; mkdir -p "$OUT"
FL="-O2 -std=c++17 $(/usr/bin/llvm-config --cxxflags | sed 's/-DNDEBUG//; s/-std=[^ ]*//') -fexceptions -w"
for f in util memory exec merge call summary art main lint reloc align asserts noexc lin bound; do /usr/bin/clang++ $FL -c $f.cpp -o "$OUT/$f.o" & done
for j in $(jobs -p); do wait $j; done
/usr/bin/clang++ "$OUT"/{util,memory,exec,merge,call,summary,art,main}.o -o "$OUT/roarai" $(/usr/bin/llvm-config --ldflags --libs core irreader support binaryformat)
/usr/bin/clang++ "$OUT"/{lint,reloc,align,asserts,noexc}.o -o "$OUT/roarlint" $(/usr/bin/llvm-config --ldflags --libs core irreader bitwriter support binaryformat)
/usr/bin/clang++ "$OUT"/{lin,bound}.o -o "$OUT/roarbound" $(/usr/bin/llvm-config --ldflags --libs)
