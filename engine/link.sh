#!/bin/bash
# usage: link.sh IR.ll OUT     link the verified IR itself into a native replay/search executable
V=$(cd "$(dirname "$0")/.." && pwd)
LL=$1; OUT=$2; SAN=$3
D=$(mktemp -d)
sed "/^@llvm.global_ctors/d" "$LL" > $D/a.ll
clang++ -c -O1 -x ir $D/a.ll -o $D/a.o -w || exit 3
clang++ -c -O1 -std=gnu++14 -I"$V/inc" "$V/native/vp_native.cpp" -o $D/n.o || exit 3
LIBS="-lboost_serialization -lboost_python312 -lpython3.12 -lboost_thread -lboost_system -lboost_filesystem -lboost_iostreams -lboost_date_time -lpthread -ldl"
clang++ -rdynamic $D/n.o $D/a.o -o "$OUT" -Wl,--no-demangle $LIBS >$D/err 2>&1
if [ $? -ne 0 ]; then
  # functions outside the contract's reach that the harness never executes: trap stubs
  grep -oE 'undefined reference to `[^'"'"']+' $D/err | sed 's/.*`//' | sort -u > $D/und
  { echo '.text'; while read s; do echo ".globl \"$s\""; echo "\"$s\": ud2"; done < $D/und; } > $D/stub.s
  # data symbols (vtables, typeinfo) get zeroed storage
  { echo '.text'; grep -vE '^_ZT[VISC]|^_ZTV' $D/und | while read s; do echo ".globl \"$s\""; echo "\"$s\": ud2"; done;
    echo '.data'; grep -E '^_ZT[VISC]' $D/und | while read s; do echo ".globl \"$s\""; echo "\"$s\": .zero 4096"; done; } > $D/stub.s
  clang++ -c $D/stub.s -o $D/s.o || exit 3
  clang++ -rdynamic $D/n.o $D/a.o $D/s.o -o "$OUT" -Wl,--no-demangle $LIBS >$D/err 2>&1 || { tail -5 $D/err; rm -rf "$D"; exit 3; }
fi
rm -rf "$D"
