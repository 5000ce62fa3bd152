#!/bin/bash
# Dev aid: plant.sh ID [CHECK...]: confirms planted bug ID (demo 0 clean, builds, stable tests, demo nonzero), then runs checks against it
ID=$1; shift; D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf /tmp/pdemo; cp -r $D /tmp/pdemo; rm -f /tmp/pdemo/*.diff /tmp/pdemo/meta.json
timeout 300 bash /tmp/pdemo/demo.sh >/tmp/pd0 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || { echo "no apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/pb.log; exit 1; }
timeout 300 bash /tmp/pdemo/demo.sh >/tmp/pd1 2>&1; echo "demo planted: $?"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/pt.json'))
s=b.get('stable') or b.get('passed') or b
miss=[x for x in s if x not in set(t['passed'])]
print('stable tests missing:',len(miss),miss[:5])
P
fi
for c in "$@"; do /verif/check $c quick >/tmp/pc.out 2>&1; echo "check $c: exit $?"; grep VIOLATION /tmp/pc.out | head -3; done
