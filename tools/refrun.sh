#!/bin/bash
# refrun.sh TREE [PROP...]: runs the checks against another tree (a
# behaviour-preserving refactoring of /repo, say) from a scratch copy of /verif.
R=$(cd "$1" && pwd); shift
S=$(mktemp -d /tmp/refrun.XXXX)
mkdir $S/v
( cd /verif && tar cf - --exclude=./bin --exclude=./out --exclude=./evidence --exclude=./.git . ) | tar xf - -C $S/v
sed -i "s#=> /repo#=> $R#" $S/v/harness/go.mod
sed -i "s#/repo#$R#g" $S/v/tools/gen_gotext.py
mkdir -p $S/v/evidence
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
for p in "$@"; do
  s=$(date +%s)
  bash $S/v/check.sh $p >$S/out 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c 'incomplete=[1-9]' $S/out) $(grep -m1 VIOLATION $S/out | cut -c1-160)"
  [ $rc = 0 ] || grep -m3 'assert:\|panic\|rror' $S/out | cut -c1-300
  grep 'incomplete=[1-9]' $S/out
done
python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$S"
