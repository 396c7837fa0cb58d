#!/bin/bash
# tryseed.sh ID... : development helper; confirms a planted change in /repo (applied, then undone) and runs its property's check
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for id in "$@"; do s=/verif/seeded/$id
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash $s/demo.sh >/tmp/ts_o1 2>&1); a=$?
git apply $s/patch.diff || { echo "$id PATCH-FAIL"; continue; }
bash /opt/vp/test.sh /tmp/ts_t.json >/tmp/ts_t.log 2>&1; t=$(tail -1 /tmp/ts_t.log)
(cd /repo; timeout 300 bash $s/demo.sh >/tmp/ts_o2 2>&1); b=$?
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3 lib/check.py $prop quick >/tmp/ts_o3 2>&1); c=$?; fi
git checkout -q -- .
python3 - "$id" "$a" "$b" "$c" <<'P'
import json,sys,os
f='/verif/lib/seedres.json'; r=json.load(open(f)) if os.path.exists(f) else {}
r[sys.argv[1]]='yes' if sys.argv[4]=='1' else 'no'; json.dump(r,open(f,'w'),indent=0,sort_keys=True)
P
echo "$id [$prop] demo clean=$a patched=$b tests='$t' check=$c $(grep -o 'undecided=.*' /tmp/ts_o3 | head -1)"; [ "$a" = 0 ] || tail -3 /tmp/ts_o1; [ "$b" = 0 ] && tail -2 /tmp/ts_o2; grep -A1 '^VIOLATION' /tmp/ts_o3 | sed -n 2p | cut -c1-200; [ "$c" = 1 ] || grep -m3 'ERROR\|VACUOUS' /tmp/ts_o3; done
