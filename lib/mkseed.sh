#!/bin/bash
# mkseed.sh ID PROP CFG "needs" "breaks"  : takes the uncommitted change in /repo and /tmp/sd/demo.c (or /tmp/sd/demo_ID.sh) into seeded/ID
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo EMPTY PATCH; exit 1; }
sed "s/@CFG@/$3/" /tmp/sd/demo.sh > $d/demo.sh; cp /tmp/sd/demo.c $d/demo.c
python3 - "$1" "$2" "$4" "$5" <<'P'
import json,sys; json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
