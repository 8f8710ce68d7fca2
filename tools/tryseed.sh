#!/bin/bash
# tryseed.sh ID [CHECK]: demo on the unchanged tree, apply, build, stable tests, demo, check, undo
set -u
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
S=/verif/seeded/$ID
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
if [ -z "${NODEMO:-}" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo clean: $?"
fi
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ -z "${NODEMO:-}" ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1; python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=set(b.get('stable') or b.get('passed') or [])
print('tests missing:', s-set(t['passed']), len(s))
Q
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.out
fi
(cd /verif; for p in $P; do python3-vt engine/check.py $p 2>&1 | tail -${TAIL:-8}; done)
