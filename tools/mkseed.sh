#!/bin/bash
# mkseed.sh ID PROPERTY KIND NEEDS BREAKS : takes the diff of the scratch copy /tmp/s/repo as a planted bug, main.rs from /tmp/s/main.rs; KIND as in mkdemo.py
set -e
H=$(cd "$(dirname "$0")/.." && pwd); D=$H/seeded/$1; mkdir -p $D; git -C /tmp/s/repo diff > $D/patch.diff; git -C /tmp/s/repo checkout -q -- .
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/s/main.rs $D/main.rs; python3 $H/tools/mkdemo.py $3 > $D/demo.sh; chmod +x $D/demo.sh
python3 - "$H" "$@" <<'P'
import sys, json
json.dump(dict(property=sys.argv[3], needs=sys.argv[5], what_it_breaks=sys.argv[6]), open(sys.argv[1] + '/seeded/%s/meta.json' % sys.argv[2], 'w'), indent=1)
P
set +e
# the demonstration in the scratch copy, without and with the change
cd /tmp/s/repo; $D/demo.sh > /tmp/s/o1 2>&1; a=$?; git apply $D/patch.diff; $D/demo.sh > /tmp/s/o2 2>&1; b=$?; git checkout -q -- .
echo "$1: demo clean=$a patched=$b $(tail -1 /tmp/s/o2 | cut -c1-150)"
