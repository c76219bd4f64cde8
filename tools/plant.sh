#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo (development): applies, builds, passes the stable tests,
# demo 0 without / nonzero with the patch, and which checks report it.   Results are appended to /tmp/plant/results.txt
# CHECKS="P03 P04" overrides the checks run (default: the bug's property); NOTEST=1 skips the test suite.
H=$(dirname "$(dirname "$(realpath "$0")")")
W=${W:-/tmp/plant}; R=$W/repo; mkdir -p $W
[ -d $R ] && rsync -a --delete --exclude '*.so' --exclude '*.c' --exclude build /repo/ $R/ || cp -a /repo $R
rm -rf $W/lib; cp -r /opt/vp/lib $W/lib; cp /opt/vp/build.sh /opt/vp/test.sh $W/
sed -i "s|/repo|$R|g; s|/opt/vp/lib|$W/lib|g" $W/build.sh $W/test.sh $W/lib/*.py $W/lib/env.sh
for id in "$@"; do
  D=$H/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C $R checkout -q -- . ; rm -rf $W/demo; mkdir $W/demo; cp $D/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  bash $W/build.sh > $W/build.log 2>&1 || { echo "$id: clean build failed"; continue; }
  (cd $R; timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1); d0=$?
  if ! git -C $R apply $D/patch.diff; then echo "$id: does not apply" | tee -a $W/results.txt; continue; fi
  if ! bash $W/build.sh > $W/build.log 2>&1; then echo "$id: BUILD FAILS" | tee -a $W/results.txt; git -C $R checkout -q -- .; continue; fi
  (cd $R; timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1); d1=$?
  t="tests skipped"
  if [ -z "$NOTEST" ]; then
    bash $W/test.sh $W/out.json > $W/test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('$W/out.json'))['passed']); f=[x for x in b if x not in o]
print('tests ok' if not f else f'TESTS FAIL {len(f)} {f[:3]}')")
  fi
  c=""
  for p in ${CHECKS:-$P}; do
    VERIF_REPO=$R VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $H/check.py --property $p > $W/check_$p.log 2>&1; rc=$?
    c="$c $p:rc$rc $(grep -h '^VIOLATION' $W/check_$p.log | grep -q no-failing && echo proof-only) $(grep -hc 'obligation failed' $W/check_$p.log)obl $(grep -hc 'failing input' $W/check_$p.log)inp"
  done
  echo "$id: demo $d0/$d1; $t;$c" | tee -a $W/results.txt
  git -C $R checkout -q -- .
done
