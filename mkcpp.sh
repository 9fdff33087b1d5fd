#!/bin/bash
# mkcpp.sh REPO OUT.bc [PASSES]: the C++ wrappers (every inline member emitted), with
# exceptions lowered to calls that do not return (unless PASSES says otherwise).
R=$1; O=$2; PASSES=${3:-lowerinvoke,sroa,simplifycfg}
D=$(mktemp -d) || exit 2
cp "$(dirname "$0")/cpp_clients.cpp" $D/cpp_clients.cpp
/usr/bin/clang++ -std=c++17 -D__X86INTRIN_H -D__IMMINTRIN_H -DROARING_DISABLE_X64 -g -O0 -w -Xclang -disable-O0-optnone -femit-all-decls -emit-llvm -I"$R/include" -I"$R/cpp" -c $D/cpp_clients.cpp -o $D/w.bc &&
/usr/bin/opt -passes="function($PASSES)" $D/w.bc -o "$O"; rc=$?
rm -r "$D"
exit $rc
