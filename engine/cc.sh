#!/bin/bash
# cc.sh out.bc [flags] sources... : compile to bitcode and link with the runtime
out=$1; shift
clang++ -O1 -g -emit-llvm -c -fno-access-control -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -D_GLIBCXX_ASSERTIONS -U_FORTIFY_SOURCE -w -I/verif/engine/include -I/usr/include/eigen3 "$@" -o $out
