#!/bin/bash
# runs the property's check against each seeded bug in a scratch copy (VS_REPO); evidence redirected? prints result
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 rm -rf /tmp/rs_$id; mkdir /tmp/rs_$id; git -C /repo archive HEAD | tar x -C /tmp/rs_$id
 (cd /tmp/rs_$id && git init -q . && git apply $d/patch.diff) || echo "APPLY FAILED $id"
 s=$(date +%s)
 VS_REPO=/tmp/rs_$id timeout 900 /verif/check $p quick > /tmp/rs_$id.log 2>&1; rc=$?
 e=$(date +%s)
 echo "$id $p rc=$rc t=$((e-s)) $(grep -m1 VIOLATION /tmp/rs_$id.log)"
 rm -rf /tmp/rs_$id
done
