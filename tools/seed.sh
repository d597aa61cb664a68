#!/bin/bash
# seed.sh <id>...: confirms planted bugs: applies to /repo's HEAD, builds, passes the stable tests, demo fails with it and passes without;
# then runs the property's quick check against it.
cd /verif
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  res="$id ($prop):"
  bash /opt/vp/build.sh > /tmp/seed.log 2>&1; (cd /repo && timeout 300 bash $s/demo.sh > /tmp/seed.demo0 2>&1) && res="$res clean-ok" || res="$res CLEAN-FAILS"
  git -C /repo apply $s/patch.diff || { echo "$res PATCH-FAILS"; continue; }
  if bash /opt/vp/build.sh > /tmp/seed.log 2>&1; then
    (cd /repo && timeout 300 bash $s/demo.sh > /tmp/seed.demo1 2>&1) && res="$res DEMO-PASSES" || res="$res demo-fails"
    bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
    res="$res $(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def names(d):
    for k in ('passed','pass','tests','stable'):
        if k in d: return set(map(str,d[k] if isinstance(d[k],list) else [x for x in d[k]]))
    return set(map(str,d))
m=set(b['stable'])-set(o['passed'])
print('tests-ok' if not m else 'TESTS-FAIL %d %s'%(len(m),sorted(m)[:2]))
P
)"
    if [ -z "$NOCHECK" ]; then
      timeout 900 node harness/check.mjs $prop > /tmp/seed.check 2>&1; r=$?
      res="$res check=$r $(grep -a 'is violated' /tmp/seed.check | cut -c1-160)"
    fi
  else res="$res BUILD-FAILS"; fi
  git -C /repo checkout -q -- .
  echo "$res"
done
bash /opt/vp/build.sh > /tmp/seed.log 2>&1
