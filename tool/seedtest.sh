#!/bin/bash
# seedtest.sh SLOT ID [full]: confirm a planted change in a scratch copy bound over /repo (private mount namespace)
SLOT=$1; ID=$2; MODE=$3
SC=/tmp/sc$SLOT
[ -d $SC/repo ] || { mkdir -p $SC; cp -a /repo $SC/repo; }
exec unshare -m bash -c '
SC='$SC'; ID='$ID'; MODE='$MODE'; D=/verif/seeded/$ID
mount --bind $SC/repo /repo || exit 9
cd /repo && git checkout -q -- . && git checkout -q $(git -C /repo rev-parse HEAD) 2>/dev/null
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
run_demo() { mkdir -p $SC/demo && cp -r $D/. $SC/demo/ && rm -f $SC/demo/patch.diff $SC/demo/meta.json; (cd /repo && timeout 300 bash $SC/demo/demo.sh >$SC/demo.out 2>&1); r=$?; rm -rf $SC/demo; return $r; }
run_demo; d0=$?
git apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
t=skipped
if [ "$MODE" = full ]; then
  bash /opt/vp/build.sh >$SC/build.log 2>&1; b=$?
  bash /opt/vp/test.sh $SC/out.json >$SC/test.log 2>&1
  t="build=$b $(python3 - $SC/out.json <<PY
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
print("tests", "PASS" if not [x for x in b["stable"] if x not in o["passed"]] else "FAIL %s" % [x for x in b["stable"] if x not in o["passed"]][:3])
PY
)"
fi
run_demo; d1=$?
cd /verif; c=$(python3 check.py $P 2>&1); r=$?
v=$(echo "$c" | grep -c "^VIOLATION property=$P ")
cd /repo; git checkout -q -- .
echo "$ID [$P]: demo clean=$d0 patched=$d1; $t; check exit=$r violation-lines=$v"
[ $r -eq 1 ] || echo "$c" | tail -5 | cut -c1-300
'
