#!/bin/bash
# Builds the program beside this script against the library in the current directory's build and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/vmime_demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
B=$PWD/_build
[ -f "$D/alt" ] && B=$B/alt
g++ -std=c++11 -O0 -w -I"$D" -I"$PWD" -I"$PWD/src" -I"$B/src" "$D/demo.cpp" -o "$T/demo" \
	-L"$B/build/lib" -lvmime -pthread -Wl,-rpath,"$B/build/lib" $(cat "$D/flags" 2>/dev/null) || exit 8
cd "$T" && timeout 120 ./demo "$T"
