#!/bin/bash
# tryseed.sh ID [CHECK...]   confirm a planted bug (seeded/ID) and run the checks against it
# VERIF: the patch is applied to /repo and undone again
ID=$1; shift
S=/verif/seeded/$ID
. /opt/vp/env.sh 2>/dev/null
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ -z "$SKIP" ]; then
git apply --check $S/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1
D=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
(timeout 300 bash $D/demo.sh > $D/out 2>&1); c=$?
[ $c = 0 ] || { echo "demo fails on the unchanged tree ($c)"; tail -20 $D/out; exit 2; }
git apply $S/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seedbuild.out 2>&1 || { echo "build fails"; tail /tmp/seedbuild.out; exit 2; }
(timeout 300 bash $D/demo.sh > $D/out 2>&1); c=$?
[ $c != 0 ] || { echo "demo passes with the patch"; exit 2; }
grep -E "panic|FAIL|demo" $D/out | head -3
rm -rf "$D"
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P' || exit 2
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('tests') or b.get('passed')
p=set(r['passed']) if isinstance(r['passed'],list) else set(k for k,v in r.items() if v)
miss=[t for t in st if t not in p]
print('stable tests missing:',miss) ; sys.exit(bool(miss))
P
else
git apply $S/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
fi
for c in "$@"; do timeout 900 python3 /verif/bin/check.py $c > /tmp/seedcheck.out 2>&1; echo "check $c: exit $? $(grep -c VIOLATION /tmp/seedcheck.out) $(head -1 /tmp/seedcheck.out | cut -c1-160)"; done
