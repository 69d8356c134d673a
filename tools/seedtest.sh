#!/bin/bash
# seedtest.sh <id> [wt]: in a scratch copy bind-mounted over /repo, checks a planted bug: applies, builds, passes the
# stable tests, demo fails with it and passes without it, and what the property's quick check says.
ID=$1; WT=${2:-/tmp/wt}
D=$(dirname "$(dirname "$(realpath "$0")")")/seeded/$ID
[ -d $WT ] || cp -a /repo $WT
cd $WT && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 1
mkdir -p /tmp/demo.$ID && cp $D/* /tmp/demo.$ID/ && rm -f /tmp/demo.$ID/*.diff /tmp/demo.$ID/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cat > $WT.run.sh <<R
mount --bind $WT /repo; cd /repo
if [ -z "$NOCLEAN" ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.build0 2>&1 || { echo "$ID: BUILD0 FAILED"; exit; }
timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/seed.$ID.demo0 2>&1; echo "$ID: demo clean rc=\$?"
fi
git apply $D/patch.diff || { echo "$ID: DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >/tmp/seed.$ID.build 2>&1 || { echo "$ID: BUILD FAILED"; tail -n 20 /tmp/seed.$ID.build; }
timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/seed.$ID.demo1 2>&1; echo "$ID: demo bug rc=\$?"; tail -n 3 /tmp/seed.$ID.demo1
bash /opt/vp/test.sh /tmp/seed.$ID.json > /tmp/seed.$ID.test 2>&1
python3 - <<Q
import json
a=json.load(open('/tmp/seed.$ID.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed']); print('$ID: tests', 'PASS' if not m else 'FAIL %s'%sorted(m))
Q
cd /verif; timeout 900 python3 check.py $P quick > /tmp/seed.$ID.check 2>&1; echo "$ID: check $P rc=\$?"; grep -A2 VIOLATION /tmp/seed.$ID.check | head -n 9 | cut -c1-300
R
unshare -m bash $WT.run.sh 2>&1
cd $WT && git checkout -q -- .
rm -rf "/tmp/demo.$ID"
