#!/bin/bash
# try_bug.sh ID [notest] : applies seeded/ID/patch.diff to /repo, checks that it builds, passes the stable tests, fails its
# demonstration and is caught by the check of its property; undoes it and checks the demonstration again.
id=$1
D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "dirty /repo"; exit 9; }
git apply --check $D/patch.diff || exit 8
bash /opt/vp/build.sh > /tmp/try.log 2>&1 || exit 7
(bash $D/demo.sh > /tmp/demo.log 2>&1); echo "demo without patch: $? (0 expected)"
git apply $D/patch.diff
if bash /opt/vp/build.sh > /tmp/try.log 2>&1; then
  (bash $D/demo.sh > /tmp/demo.log 2>&1); echo "demo with patch: $? (nonzero expected)"; tail -3 /tmp/demo.log
  if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/try.json > /tmp/try.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/try.json'))
stable=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
passed=set(r['passed']) if 'passed' in r else set(k for k,v in r.items() if v in('passed',True))
print('stable tests failing:', sorted(stable-passed)[:5], len(stable-passed))
P
  fi
  cd /verif; for p in $prop $3; do VERIF_SEED=1 timeout 880 python3 check.py $p --tier quick > /tmp/check.log 2>&1; echo "check $p: $?"; grep -h "violates\|minimised\|VIOLATION\|error" /tmp/check.log | cut -c1-300; done; cd /repo
else echo "does not build"; tail -5 /tmp/try.log; fi
git checkout -q -- . && bash /opt/vp/build.sh > /tmp/try.log 2>&1
