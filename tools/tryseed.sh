#!/bin/bash
# tools/tryseed.sh ID [check]: applies seeded/ID to /repo, builds, runs the stable tests and the demo, optionally the
# property's check, and undoes it.  Prints one line per step.
V=/verif; S=$V/seeded/$1; cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 2; }
git apply --check $S/patch.diff || exit 2
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/demo0.out 2>&1; echo "$1 demo unchanged rc=$? (want 0)"
git apply $S/patch.diff
bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedtest.json'))
want=set(b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable'))
miss=want-set(t['passed']); print("stable tests failing with patch:",len(miss), sorted(miss)[:5])
P
bash $S/demo.sh >/tmp/demo1.out 2>&1; echo "demo patched rc=$? (want nonzero)"
if [ -n "$2" ]; then P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); (cd $V; VERIF_SEED=1 timeout 900 python3 check.py $P | tail -3); fi
