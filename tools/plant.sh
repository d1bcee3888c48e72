#!/bin/bash
# plant.sh <id>.. : applies each planted change to /repo, builds, runs the tests,
# the demo and the check of its property (and of CHECKS, if set), and undoes it.
V=/verif R=/repo
cd $V
git -C $R diff --quiet || { echo "$R is not clean"; exit 2; }
T=$(mktemp -d)
trap 'git -C $R checkout -q -- .; rm -rf "$T"' EXIT
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $p"
  if [ -z "$NODEMO" ]; then
    bash $d/demo.sh >$T/demo0 2>&1; r="$r clean-demo=$?"
  fi
  git -C $R apply $d/patch.diff || { echo "$r DOES NOT APPLY"; continue; }
  if [ -z "$NODEMO" ]; then
    (cd $R && CARGO_TARGET_DIR=$R/target RUSTC_WRAPPER= CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline >$T/test.log 2>&1)
    python3 /opt/vp/results.py $T/out.json cargo:$T/test.log >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$T/out.json'))
ok=set(r.get('passed',[]) if isinstance(r.get('passed'),list) else [k for k,v in r.items() if v in('pass','passed',True)])
print('ok' if all(x in ok for x in b) else 'FAIL')" 2>&1 | tail -1)
    bash $d/demo.sh >$T/demo1 2>&1; r="$r tests=$t demo=$?"
  fi
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    ./check.sh $c >$T/out 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$c" $T/out)
    r="$r $c:rc=$rc,violations=$v,$(( $(date +%s) - s ))s"
    [ -n "$VERBOSE" ] && cat $T/out
  done
  git -C $R checkout -q -- .
  echo "$r"
done
