#!/bin/bash
# builds demo.cpp with the whole database of the working tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
F="-std=c++17 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DKVS_MAX_PARALLEL_THREADS=300 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 -DPROJECT_ROOT=/repo -DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -I/repo/include -I/repo/src -I/repo/src/include -I/repo/third_party -I$D/stubs -w -O0 -fno-access-control"
S="/repo/src"
ls $S/concurrency_control/*.cpp $S/concurrency_control/bg_work/*.cpp $S/concurrency_control/interface/*.cpp $S/concurrency_control/interface/*/*.cpp $S/database/*.cpp $S/datastore/limestone/*.cpp $D/stubs/*.cpp $D/demo.cpp > "$W/list"
one() { g++ $1 -c "$2" -o "$3/$(echo "$2" | tr '/' '_').o"; }
export -f one
xargs -P 8 -I{} bash -c "one '$F' {} $W" < "$W/list" || { echo "demo: build failed"; exit 3; }
g++ "$W"/*.o -o "$W/demo" -lglog -ltbb -lboost_filesystem -lpthread -latomic || { echo "demo: link failed"; exit 3; }
cd "$W" && mkdir run && cd run && GLOG_minloglevel=3 timeout 200 ../demo
