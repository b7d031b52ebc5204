#!/bin/bash
# tryseed.sh ID...: is the planted bug a valid one, and does the check of its property catch it?
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo status --short | grep -q . && { echo "repo dirty"; exit 1; }
  r="$id $p"
  bash $d/demo.sh >/tmp/demo.log 2>&1; r="$r demo-clean=$?"
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1; r="$r build=$?"
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  r="$r tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=b.get('stable') or b.get('passed') or b.get('stable_passed') or []
print('ok' if all(x in set(t['passed']) for x in st) and st else 'FAIL', len(st))
P
)"
  bash $d/demo.sh >/tmp/demo.log 2>&1; r="$r demo-bug=$?"
  t0=$SECONDS
  VERIF_SEED=1 bash run.sh quick $p >/tmp/chk.log 2>&1; r="$r check=$? ($((SECONDS-t0))s)"
  grep -q "VIOLATION property=$p" /tmp/chk.log && r="$r CAUGHT"
  git -C /repo checkout -- .
  echo "$r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
