#!/bin/bash
# plant.sh ID [check ids...]: confirm a planted change (seeded/ID) in a scratch
# copy of /repo mounted over /repo in a private namespace: demo passes without
# the change, fails with it, tests pass with it; then run the given checks.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/reports"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$PROP}
export S W CHECKS PROP NOTEST id
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/reports /opt/vp/reports
cd /repo
bash $S/demo.sh >$W/d0 2>&1; echo "$id demo-unchanged rc=$?"
git apply $S/patch.diff || { echo "$id APPLY FAILED"; exit; }
bash /opt/vp/build.sh >/dev/null 2>&1; echo "$id build rc=$?"
bash $S/demo.sh >$W/d1 2>&1; echo "$id demo-patched rc=$?"
for c in $CHECKS; do (cd /verif; python3 check.py $c --tier quick --no-evidence >$W/c_$c 2>&1; echo "$id check $c rc=$? $(grep -c VIOLATION $W/c_$c) $(grep -o "^  \[[^]]*\] x[0-9]*" $W/c_$c | tr "\n" " " | head -c 300)"); done
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/o.json >$W/t 2>&1; echo "$id tests: $(tail -1 $W/t)"; fi
'
rm -rf "$W"
