#!/bin/bash
# plant.sh ID... : confirm a planted bug (seeded/ID): applies, builds, passes the tests, the demo
# tells, and say whether the property's check tells.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$here/seeded/$id
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    cd /repo || exit 1
    [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
    line="$id $prop:"
    (bash "$d/demo.sh" >/tmp/plant.out 2>&1) && line="$line demo-clean-ok" || { line="$line DEMO-FAILS-ON-CLEAN"; tail -5 /tmp/plant.out; }
    git apply "$d/patch.diff" || { echo "$line DOES NOT APPLY"; continue; }
    if bash /opt/vp/build.sh >/tmp/plant.out 2>&1; then line="$line builds"; else line="$line BUILD-FAILS"; fi
    bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.out 2>&1
    line="$line $(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/plant.json'))
p=r.get('passed') or []
p=set(p if isinstance(p,list) else p.keys())
print('tests-ok' if b<=p else 'TESTS-FAIL %s'%sorted(b-p))
P
)"
    if (bash "$d/demo.sh" >/tmp/plant.out 2>&1); then line="$line DEMO-PASSES-WITH-BUG"; else line="$line demo-fails($(tail -1 /tmp/plant.out | cut -c1-60))"; fi
    "$here/check.sh" "$prop" quick >/tmp/plant.chk 2>&1
    rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" /tmp/plant.chk; then line="$line CAUGHT"; else line="$line MISSED(rc=$rc)"; fi
    git checkout -q -- .
    echo "$line"
done
