#!/bin/bash
# seed_try.sh ID...: confirms planted bugs in the scratch copy /tmp/mut: demo on clean, then patched build, tests, demo.
mkdir -p /tmp/mut /tmp/vpm
[ -d /tmp/mut/.git ] || cp -a /repo/. /tmp/mut/
for f in build.sh test.sh env.sh; do sed 's#/repo#/tmp/mut#g; s#/opt/vp/env.sh#/tmp/vpm/env.sh#g' /opt/vp/$f > /tmp/vpm/$f; done
export DEMO_TARGET=/tmp/mut-demo-target
for ID in "$@"; do
  D=/verif/seeded/$ID
  git -C /tmp/mut checkout -q -- . ; git -C /tmp/mut fetch -q /repo HEAD && git -C /tmp/mut reset -q --hard FETCH_HEAD
  (cd /tmp/mut && bash $D/demo.sh > /tmp/seed-$ID.clean 2>&1); c=$?
  git -C /tmp/mut apply $D/patch.diff || { echo "$ID: does not apply"; continue; }
  bash /tmp/vpm/build.sh > /tmp/seed-$ID.build 2>&1; b=$?
  bash /tmp/vpm/test.sh /tmp/seed-$ID.json > /tmp/seed-$ID.test 2>&1
  (cd /tmp/mut && bash $D/demo.sh > /tmp/seed-$ID.demo 2>&1); d=$?
  python3 - $ID $c $b $d <<'P'
import json,sys
i,c,b,d=sys.argv[1:]
base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(f'/tmp/seed-{i}.json'))
bad=sorted(set(base['stable'])-set(t['passed']))
ok = c=='0' and b=='0' and d not in('0','3') and not bad
print(i, "GOOD" if ok else "BAD", "clean",c,"build",b,"patched demo",d,"broken tests",bad[:6], flush=True)
P
  git -C /tmp/mut checkout -q -- .
done
