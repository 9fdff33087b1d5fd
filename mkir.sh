#!/bin/bash
# mkir.sh REPO OUT.bc [extra clang flags]: one translation unit with every C
# source of the library, compiled to IR with debug info, locals promoted.
R=$1; O=$2; shift 2
D=$(mktemp -d) || exit 2
for h in roaring_version roaring_types bitset/bitset roaring memory roaring64; do echo "#include <roaring/$h.h>"; done > $D/unity.c
find "$R/src" -name '*.c' | sort | sed 's/.*/#include "&"/' >> $D/unity.c
[ -n "$CLIENTS" ] && echo "#include \"$CLIENTS\"" >> $D/unity.c
/usr/bin/clang -std=c11 -O0 -Xclang -disable-O0-optnone -g -w "$@" -I"$R/include" -I"$R/src" -emit-llvm -c $D/unity.c -o $D/all.bc &&
/usr/bin/opt -passes='function(sroa)' $D/all.bc -o "$O"; rc=$?
rm -r "$D"
exit $rc
