#!/bin/bash
# tryseed.sh ID... : demo on the clean tree and with the patch, and the property's check with the patch
for i in "$@"; do D=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; $D/demo.sh >/tmp/s/o1 2>&1; a=$?; git -C /repo apply $D/patch.diff || { echo "$i does not apply"; continue; }
$D/demo.sh >/tmp/s/o2 2>&1; b=$?; cd /verif; ./check.sh $P >/tmp/s/o3 2>&1; c=$?; git -C /repo checkout -q -- .
echo "$i $P demo clean=$a patched=$b check=$c $(grep VIOLATION /tmp/s/o3 | cut -c1-150)"; done
