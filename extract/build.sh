#!/bin/bash
# Builds the fact extractor: build.sh <output-binary>
set -e
here="$(cd "$(dirname "$0")" && pwd)"
L=/usr/lib/llvm-18
mkdir -p "$(dirname "$1")"
g++ -O1 -std=c++17 -fno-rtti -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
	"$here/vmsa_extract.cpp" -o "$1.tmp$$" /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 -L$L/lib -lLLVM-18
mv "$1.tmp$$" "$1"
