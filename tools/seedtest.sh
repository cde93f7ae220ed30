#!/bin/bash
# seedtest.sh ID [notests]: a planted change, tried in a scratch copy bind-mounted over /repo
# (user namespace; the real /repo is never touched).  Prints demo/tests/check results.
ID=$1; D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedtest.XXXX)
cp -a /repo $W/repo
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir $W/demo; cp -r $D/. $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
git -C $W/repo apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
unshare -Urm bash -c "
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1; echo build rc=\$?
timeout 300 bash $W/demo/demo.sh >$W/demo.log 2>&1; echo demo-with-patch rc=\$?
tail -3 $W/demo.log
cd /verif
if [ -z '$3' ]; then timeout 900 python3 check.py $P >$W/check.log 2>&1; echo check rc=\$?; grep -E '^  \[|VIOLATION|BROKEN|Error' $W/check.log | head -6; fi
if [ '$2' != notests ]; then cd /repo; bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; python3 - <<PY
import json
o=json.load(open('$W/out.json')); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(o.get('passed',o) if isinstance(o,dict) else o)
print('stable tests failing:', sorted(s-p))
PY
fi
"
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "$ID demo-unchanged rc=$?"; tail -2 $W/demo0.log)
rm -rf "$W"
