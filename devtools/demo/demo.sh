#!/bin/bash
# builds demo.cpp against the tree in the current directory and runs it in a scratch directory
set -e
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -g -w -fno-access-control -I"$R/include" -I"$R/src" "$D/demo.cpp" "$R/librtmfp.a" -lcrypto -lpthread -o "$T/demo"
cd "$T"
timeout 120 ./demo
