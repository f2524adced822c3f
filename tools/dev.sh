#!/bin/bash
# development build: sync the simulator into .build/t and regenerate (with "gen") from REPO (default /repo)
set -e
. /opt/vp/env.sh
R=${REPO:-/repo}
B=${B:-/verif/.build/t}
mkdir -p $B/src
cp /repo/go.mod /repo/go.sum $B/
for d in core chans over kern harness cmd; do rm -rf "$B/src/$d"; cp -r /verif/sim/$d $B/src/; done
cp /verif/sim/go.mod /verif/sim/go.sum $B/src/ 2>/dev/null || cp /verif/sim/go.mod $B/src/
if [ "$1" = gen ]; then
  (cd $B/src && go build -o $B/simgen ./cmd/simgen)
  rm -rf "$B/src/gen"
  $B/simgen $SIMGENFLAGS -repo $R -modfile $B/go.mod -out $B/src
fi
cd $B/src && go build -o $B/gevsim ./cmd/gevsim
