#!/bin/bash
# run.sh PROP [gosym flags]: development run with many native comparisons
cd "$(dirname "$0")/.."; . /opt/vp/env.sh; export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*'
python3 tools/gen_gotext.py
bash tools/gentable.sh
(cd harness && go vet ./h && go build -o ../bin/replay ./cmd/replay) || exit 2
P=$1; shift
GOSYM_STATS=1 GOSYM_SAMPLES=${S:-300} bin/gosym -verif "$PWD" -prop $P -replaybin bin/replay -noevidence "$@" 2>&1 | cut -c1-400
