#!/bin/bash
# usage: build.sh SRC OUT.ll [extra flags]      compile a contract file (+ the /repo sources it includes) to LLVM IR
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
SRC=$1; OUT=$2; shift 2
exec clang++ -S -emit-llvm -o "$OUT" "$SRC" -I"$V/inc" -I/repo -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include \
 -I/usr/include/eigen3 -w -include /opt/vp/py3compat/py2names.h -DBOOST_MATH_DISABLE_FLOAT128=1 -DNDEBUG -DYADE_ODEINT -DYADE_OPENMP -DYADE_CGAL \
 -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT -include "$V/inc/vpconfig.h" -fno-access-control \
 -std=gnu++14 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off "$@"
