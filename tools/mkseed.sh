#!/bin/bash
# mkseed.sh <id> <property> unit|db "<needs>" "<what it breaks>" [sources…]   (patch = the changes in /tmp/seedrepo, demo.cpp = /tmp/demo_<id>.cpp)
# confirms the planted change in a scratch copy and keeps it under seeded/
set -e
ID=$1; PROP=$2; KIND=$3; NEEDS=$4; WHAT=$5; shift 5
S=/verif/seeded/$ID; mkdir -p $S
git -C /tmp/seedrepo diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/demo_$ID.cpp $S/demo.cpp
cp /verif/tools/seedkit/demo_$KIND.sh $S/demo.sh; chmod +x $S/demo.sh
if [ $KIND = db ]; then rm -rf /verif/seeded/$ID/stubs; cp -r /verif/stubs $S/stubs; cp /verif/drivers/drv.h $S/drv.h; else for f in "$@"; do echo /repo/$f; done > $S/sources.txt; fi
python3 - "$S/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
git -C /tmp/seedrepo checkout -- .
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash $S/demo.sh > /tmp/demo_out 2>&1 && echo "unchanged: ok" || { echo "demo fails on the unchanged tree"; tail -5 /tmp/demo_out; exit 1; }
git -C /repo apply $S/patch.diff
bash $S/demo.sh > /tmp/demo_out 2>&1 && R=0 || R=$?
tail -2 /tmp/demo_out
git -C /repo checkout -- .
echo "with patch: exit $R"; [ $R != 0 ]
