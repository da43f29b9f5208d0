#!/bin/bash
# newbug.sh <id> <property> <needs> <what>: turn the uncommitted change in /tmp/wt (a clone of /repo) plus
# /tmp/wt-demo/demo.cpp into seeded/<id>, then reset /tmp/wt.
set -e
d=/verif/seeded/$1
mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
test -s $d/patch.diff
cp /tmp/wt-demo/demo.cpp $d/demo.cpp
cp /verif/tools/demo.sh.template $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /tmp/wt checkout -q -- .
