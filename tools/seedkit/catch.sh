#!/bin/bash
# catch.sh ID... : does the property's check catch it
for id in "$@"; do S=/verif/seeded/$id; W=/tmp/cw_$id; rm -rf "$W"; mkdir -p $W; git -C /repo archive HEAD | tar -x -C $W; (cd $W && git init -q 2>/dev/null && git apply $S/patch.diff) || { echo "$id APPLY"; continue; }
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); t0=$(date +%s)
(cd /verif && cp -f evidence/$p.json /tmp/ev_$p 2>/dev/null; VERIF_REPO=$W python3 run.py $p quick > /tmp/cw_$id.log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 '^phase.*:' /tmp/cw_$id.log | cut -c1-150) $(( $(date +%s)-t0 ))s"; cp -f /tmp/ev_$p evidence/$p.json 2>/dev/null); rm -rf "$W"; done
