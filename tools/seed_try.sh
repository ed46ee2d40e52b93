#!/bin/bash
# usage: seed_try.sh ID [PROPERTY...]: the planted bug on /repo: stable tests, demonstration, checks; always undone
ID=$1; shift
D=/verif/seeded/$ID
PROPS="${*:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")}"
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo diff --quiet || { echo "repo not clean"; exit 2; }
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_demo0.log 2>&1) && c=ok || c=FAILS-ON-CLEAN
git -C /repo apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "BUILD BROKEN"
bash /opt/vp/test.sh /tmp/seed_test.json >/tmp/seed_test.log 2>&1
t=$(/opt/venv/bin/python - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed_test.json'))
p=r.get('passed', r); p=set(p)
print('tests-ok' if b<=p else 'TESTS-FAIL %s' % sorted(b-p)[:3])
PY
)
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_demo1.log 2>&1) && d=DEMO-PASSES || d=demo-fails
out=""
for p in $PROPS; do
  (cd /verif && timeout 900 /opt/venv/bin/python run.py $p --tier quick >/tmp/seed_check_$p.log 2>&1); r=$?
  grep -q "^VIOLATION property=$p " /tmp/seed_check_$p.log && out="$out $p:caught($r)" || out="$out $p:MISSED($r)"
done
echo "$ID clean:$c $t $d$out"
