#!/bin/bash
# seedtest.sh [-t] ID...: demo on the clean tree copy and on the patched copy, our check on the patched repo $R; -t also builds and runs the stable tests.
# Works on $R (patch applied and undone).
R=${R:-/repo}; V=${V:-/verif}; T=0; [ "$1" = -t ] && { T=1; shift; }; [ "$1" = -d ] && { T=2; shift; }
for s in "$@"; do
  D=$V/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd $R || exit 1
  git diff --quiet || { echo "repo dirty"; exit 1; }
  C=$(bash $D/demo.sh >/tmp/seed-$s-clean.log 2>&1; echo $?)
  git apply $D/patch.diff || { echo "$s: does not apply"; continue; }
  X=$(bash $D/demo.sh >/tmp/seed-$s-bug.log 2>&1; echo $?)
  TT=-
  if [ $T = 1 ]; then
    if bash /opt/vp/build.sh >/tmp/seed-$s-build.log 2>&1; then bash /opt/vp/test.sh /tmp/seed-$s-test.json >/tmp/seed-$s-test.log 2>&1
    TT=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$s-test.json'))
b=b if isinstance(b,list) else b.get('stable',b.get('passed',b))
p=r if isinstance(r,list) else r.get('passed',[])
m=[x for x in b if x not in p]; print('tests-ok' if not m else 'TESTS-FAIL %s'%m[:4])
P
); else TT=BUILD-FAIL; fi
  fi
  [ $T = 2 ] && TT="tests-failing:[$(/tmp/dev/bt.sh)]"
  K=$(cd $V; timeout 900 ./check.sh $P quick >/tmp/seed-$s-check.log 2>&1; echo $?)
  git checkout -q -- .
  echo "$s: demo clean=$C patched=$X $TT check[$P]=$K $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/seed-$s-check.log)"
done
