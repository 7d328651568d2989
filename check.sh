#!/bin/bash
# check.sh PROPERTY [TIER]: rebuilds engine and replayer against /repo's current
# tree and decides the property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GONOSUMDB='*'
[ "$P" = C33 ] && { python3 "$V/tools/gen_gotext.py" || exit 2; }
B="$V/bin/$P.$$"; mkdir -p "$B"
trap 'for f in gosym replay replay-race; do rm -f "$B/$f"; done; rmdir "$B" 2>/dev/null' EXIT
( cd "$V/engine" && go build -o "$B/gosym" . ) || { echo "check: engine does not build"; exit 2; }
( cd "$V/harness" && go build -o "$B/replay" ./cmd/replay ) || { echo "check: harness does not build against /repo"; exit 2; }
R=()
if [ "$P" = C24 ]; then
  ( cd "$V/harness" && go build -race -o "$B/replay-race" ./cmd/replay ) || { echo "check: race build failed"; exit 2; }
  R=(-racebin "$B/replay-race")
fi
"$B/gosym" -verif "$V" -prop "$P" -tier "$T" -seed "${VERIF_SEED:-1}" -replaybin "$B/replay" "${R[@]}"
