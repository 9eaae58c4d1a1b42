#!/bin/bash
# seedtest.sh ID...: apply seeded/ID/patch.diff to a scratch copy of /repo, run tests, demo and check(s)
# env SKIPTESTS=1 skips the test suite
for id in "$@"; do
  S=/verif/seeded/$id; D=/tmp/seedwork/$id
  rm -rf "/tmp/seedwork/$id"; mkdir -p /tmp/seedwork; git clone -q /repo "$D"
  (cd "$D" && git apply "$S/patch.diff") || { echo "$id: PATCH FAILED"; continue; }
  export PYTHONPATH=$D PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
  cp -a "$S" "$D.demo"
  (cd "$D" && timeout 300 bash "$D.demo/demo.sh" > /tmp/seedwork/$id.demo.log 2>&1); d1=$?
  (unset PYTHONPATH; cd /repo && timeout 300 bash "$D.demo/demo.sh" > /tmp/seedwork/$id.demo0.log 2>&1); d0=$?
  t=skipped
  if [ -z "$SKIPTESTS" ]; then
    (cd "$D" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --tb=line --benchmark-disable -m 'not verylong' --junitxml=/tmp/seedwork/$id.xml > /tmp/seedwork/$id.test.log 2>&1)
    t=$(tail -1 /tmp/seedwork/$id.test.log)
    /usr/bin/python3 /opt/vp/results.py /tmp/seedwork/$id.json junit:/tmp/seedwork/$id.xml > /dev/null
    t="$t / $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedwork/$id.json'))
st=set(b.get('stable') or b.get('passed') or b.get('pass') or b)
p=set(r.get('passed') or r.get('pass') or [])
print('stable-broken:', len(st-p), sorted(st-p)[:3])
P
)"
  fi
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  c=$(cd /verif && VF_REPO=$D python3 check.py ${CHECK:-$prop} 2>&1 | tail -4 | cut -c1-400)
  echo "== $id ($prop): demo patched=$d1 clean=$d0 tests: $t"; echo "$c"
  rm -rf "/tmp/seedwork/$id" "/tmp/seedwork/$id.demo"
done
