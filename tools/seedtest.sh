#!/bin/bash
# Development aid: confirm a planted bug (builds, stable tests pass, demo 0/non-0) and run checks on it.
# usage: seedtest.sh ID [CHECK...]
id=$1; shift; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git -C /repo apply --check $d/patch.diff || exit 2
t=$(mktemp -d); cp -a $d/. $t/; rm -f $t/patch.diff $t/meta.json
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
(cd /repo; bash $t/demo.sh >/tmp/seed.demo0 2>&1); echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
s=b.get('stable') or b.get('stable_tests') or b.get('passed') or b
s=[x if isinstance(x,str) else x.get('id') for x in s]
p=r.get('passed') or [k for k,v in r.get('tests',{}).items() if v in('pass','passed')]
m=[x for x in s if x not in p]
print("tests: stable missing", m[:5])
P
(cd /repo; bash $t/demo.sh >/tmp/seed.demo1 2>&1); echo "$id demo bug: $?"; tail -2 /tmp/seed.demo1 | cut -c1-200
for c in "$@"; do (cd /verif; python3 check.py $c > /tmp/seed.chk 2>&1; echo "$c exit $?"; grep -A1 " rule " /tmp/seed.chk | head -3 | cut -c1-250); done
git -C /repo checkout -- .; git -C /repo status --porcelain
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
rm -rf "$t"
