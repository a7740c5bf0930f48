#!/bin/bash
# usage: tools/plant.sh ID [demo|test|check|all]   validates /verif/seeded/ID in a private mount namespace
ID=$1; WHAT=${2:-all}
S=${PLANT_DIR:-/verif/seeded}/$ID
W=$(mktemp -d /tmp/plant-$ID-XXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/r; mkdir -p $W/reports $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
git -C $W/r apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
in_ns() { unshare -m bash -c "mount --bind $W/r /repo && mount --bind $W/reports /opt/vp/reports && cd /repo && $1"; }
if [[ $WHAT == demo || $WHAT == all ]]; then
  (cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1); a=$?
  in_ns "bash /opt/vp/build.sh >/dev/null 2>&1" || echo "$ID: BUILD FAILS"
  in_ns "timeout 300 bash $W/demo/demo.sh" >$W/d1 2>&1; b=$?
  echo "$ID demo: clean=$a patched=$b $( [[ $a == 0 && $b != 0 ]] && echo OK || { echo BAD; tail -5 $W/d0 $W/d1; })"
fi
if [[ $WHAT == test || $WHAT == all ]]; then
  in_ns "bash /opt/vp/test.sh $W/out.json" >/dev/null 2>&1
  python3 - $W/out.json $ID <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed'); p=set(o['passed'])
m=[t for t in st if t not in p]
print(sys.argv[2],'tests: stable failing =',len(m),m[:3])
P
fi
if [[ $WHAT == check || $WHAT == all ]]; then
  in_ns "cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py $PROP --tier quick --no-evidence" >$W/c 2>&1; c=$?
  echo "$ID check $PROP: exit=$c $( [[ $c == 1 ]] && echo CAUGHT || echo MISSED)  $(grep -v VIOLATION $W/c | tail -3 | head -2| cut -c1-200 | tr '\n' ' ')"
fi
