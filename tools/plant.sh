#!/bin/bash
# plant.sh ID [notest]: verify a planted bug in the scratch copy /tmp/sc (cp -a of /repo).
# With changes in /tmp/sc's working tree, they become seeded/ID/patch.diff first.
set -u
id=$1; d=/verif/seeded/$id
sc=/tmp/sc
cd $sc || exit 2
mkdir -p $d
if [ -n "$(git status --porcelain -uno)" ]; then git diff > $d/patch.diff; fi
git checkout -q -- .
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export CARGO_NET_OFFLINE=true
echo "== demo on unchanged"; bash $d/demo.sh > /tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 3
echo "== demo on changed"; bash $d/demo.sh > /tmp/demo1.log 2>&1; r1=$?
tail -3 /tmp/demo1.log
echo "demo: unchanged=$r0 (want 0) changed=$r1 (want nonzero)"
if [ "${2:-}" != notest ]; then
sed 's#/repo#/tmp/sc#g' /opt/vp/build.sh > /tmp/sc-build.sh; sed 's#/repo#/tmp/sc#g' /opt/vp/test.sh > /tmp/sc-test.sh
if bash /tmp/sc-build.sh > /tmp/sc-build.log 2>&1; then echo "builds"; else echo "DOES NOT BUILD"; tail -20 /tmp/sc-build.log; fi
bash /tmp/sc-test.sh /tmp/sc-out.json > /tmp/sc-test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/sc-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=set(b['stable']); m=sorted(s-set(o['passed'])); print('missing', len(m), m[:8])
P
fi
git checkout -q -- .
