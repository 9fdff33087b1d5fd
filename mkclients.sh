#!/bin/bash
# mkclients.sh REPO OUT.bc: the client functions of the bounds analysis (C and C++).
R=$1; O=$2; V=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
/usr/bin/clang -std=c11 -O0 -Xclang -disable-O0-optnone -g -w -I"$R/include" -emit-llvm -c "$V/bound_clients.c" -o $D/c.bc &&
/usr/bin/clang++ -std=c++17 -D__X86INTRIN_H -D__IMMINTRIN_H -DROARING_DISABLE_X64 -g -O0 -w -Xclang -disable-O0-optnone -emit-llvm -I"$R/include" -I"$R/cpp" -c "$V/bound_clients.cpp" -o $D/x.bc &&
/usr/bin/opt -passes='function(lowerinvoke,sroa,simplifycfg)' $D/x.bc -o $D/y.bc &&
/usr/bin/llvm-link $D/c.bc $D/y.bc -o "$O"; rc=$?
rm -r "$D"
exit $rc
