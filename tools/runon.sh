#!/bin/bash
# runon.sh REPO PROP [flags]: a development run against another tree
V=$(cd "$(dirname "$0")/.." && pwd)
S=$(mktemp -d /tmp/runon.XXXX)
( cd $V && tar cf - --exclude=./out --exclude=./evidence --exclude=./.git . ) | tar xf - -C $S
mkdir -p $S/evidence
sed -i "s#=> /repo#=> $1#" $S/harness/go.mod
sed -i "s#/repo#$1#g" $S/tools/gen_gotext.py
shift
bash $S/tools/run.sh "$@" | sed "s#$S#.#g"
python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$S"
