#!/bin/bash
# builds demo.cpp with a few source files of the working tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
F="-std=c++17 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DKVS_MAX_PARALLEL_THREADS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPROJECT_ROOT=/repo -I/repo/include -I/repo/src -I/repo/src/include -I/repo/third_party -w -O1"
SRC=$(cat "$D/sources.txt")
g++ $F "$D/demo.cpp" $SRC -o "$W/demo" -lglog -ltbb -lboost_filesystem -lpthread -latomic || { echo "demo: build failed"; exit 3; }
cd "$W" && timeout 120 ./demo
