#!/bin/bash
# compile one C++ source to LLVM bitcode for the encoder: cc.sh in out [flags]
in=$1; out=$2; shift 2
exec clang++ -std=gnu++20 -fno-pic -fno-pie -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-unroll-loops -gline-tables-only -nostdinc++ -I/verif/engine/mock \
  -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/c++/13/backward \
  -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_USE_FLOAT128=0 -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_PARALLELIZE -DNDEBUG -U_FORTIFY_SOURCE -fno-math-errno -w -emit-llvm -c "$in" -o "$out" "$@"
