#!/bin/bash
# tryplant.sh ID [CHECK...]: demo on clean tree, apply, build, stable tests, demo, checks, undo
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash $d/demo.sh >/tmp/tp.out 2>&1; echo "clean demo rc $? (want 0)"
git apply $d/patch.diff || exit 1
for c in "$@"; do /verif/check $c >/tmp/tp.chk 2>&1; echo "check $c rc $?"; grep -E 'VIOLATION|ERROR' /tmp/tp.chk | head -3; done
if [ -z "$NOBUILD" ]; then
bash /opt/vp/test.sh /tmp/tp.json >/tmp/tp.build 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tp.json'))
stable=b.get('passed') or b.get('stable') or b
miss=sorted(set(stable)-set(r['passed']))
print('stable tests broken:',len(miss),miss[:4])
P
bash $d/demo.sh >/tmp/tp.out 2>&1; echo "patched demo rc $? (want nonzero)"; tail -3 /tmp/tp.out
fi
git checkout -q -- .
[ -z "$NOBUILD" ] && bash /opt/vp/build.sh >/tmp/tp.build 2>&1
git status --porcelain
