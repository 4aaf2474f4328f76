#!/bin/bash
# seed.sh ID : the change is in /tmp/seed/repo (a cp -a of /repo); checks that it builds, that the stable
# tests pass, that the demo passes on /repo and fails with the change; writes seeded/ID/patch.diff
id=$1; D=/verif/seeded/$id
cd /tmp/seed/repo || exit 1
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 1; }
bash $D/demo.sh >/tmp/seed/demo.base 2>&1 || { echo "demo fails on base"; tail -5 /tmp/seed/demo.base; exit 1; }
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1 || { echo "BUILD FAILED"; tail /tmp/seed/build.log; exit 1; }
if bash $D/demo.sh >/tmp/seed/demo.bug 2>&1; then echo "demo passes with bug"; cat /tmp/seed/demo.bug; exit 1; fi
echo "demo with bug: $(tail -1 /tmp/seed/demo.bug)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed/o.json >/tmp/seed/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed/o.json'))
m=b-set(o['passed']); print('missing',len(m),sorted(m)[:10])
P
fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif; python3 check.py $P | tail -6
