#!/bin/bash
# trybug.sh ID...: applies seeded/ID to /repo, builds, tests, demo, runs its property's quick check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --short)" ] && { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/tb.out 2>&1); d0=$?
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id noapply"; continue; }
  bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/tb.json'))
s=set(b.get('stable',b.get('passed',b))) if isinstance(b,dict) else set(b)
p=set(r.get('passed',[]) if isinstance(r,dict) else r)
print(sorted(s-p) or 'ok')" 2>&1 | tail -1)
  (cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/tb.out 2>&1); d1=$?
  s=$(date +%s)
  timeout 900 python3 check.py $p quick > /tmp/tb.chk 2>&1; c=$?
  e=$(( $(date +%s) - s ))
  git -C /repo checkout -- .
  echo "$id prop=$p tests=$t demo_clean=$d0 demo_bug=$d1 check=$c ${e}s $(grep -m1 VIOLATION /tmp/tb.chk)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
