#!/bin/bash
# seedrun.sh [ID...]: runs each planted bug through its property's check, in
# scratch copies of /verif and /repo, and prints the verdicts.
V=$(cd "$(dirname "$0")/.." && pwd)
S=$(mktemp -d /tmp/seedrun.XXXX)
mkdir $S/v; cp -a /repo $S/r
( cd $V && tar cf - --exclude=./bin --exclude=./out --exclude=./evidence --exclude=./.git . ) | tar xf - -C $S/v
sed -i "s#=> /repo#=> $S/r#" $S/v/harness/go.mod
sed -i "s#/repo#$S/r#g" $S/v/tools/gen_gotext.py
mkdir -p $S/v/evidence
[ $# = 0 ] && set -- $(ls $V/seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C $S/r apply "$V/seeded/$id/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  s=$(date +%s)
  bash $S/v/check.sh $p >$S/out 2>&1; rc=$?
  e=$(( $(date +%s)-s ))
  git -C $S/r checkout -q -- .
  echo "$id $p rc=$rc ${e}s $(grep -m1 VIOLATION $S/out | sed "s#$S/v#/verif#" | cut -c1-160) $(grep -m1 ': assert: \|: panic' $S/out | cut -c1-120)"
  [ $rc = 2 ] && tail -3 $S/out
done
python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$S"
