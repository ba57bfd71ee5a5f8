#!/bin/bash
# builds the AST exporter into $1 (default /verif/.build/spuexport)
set -e
out=${1:-/verif/.build/spuexport}
mkdir -p $(dirname $out)
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include /verif/exporter/spuexport.cc -o $out.tmp$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv $out.tmp$$ $out
