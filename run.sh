#!/bin/bash
# run.sh check PROPERTY TIER | replay FILE [-trace] | setup | kerndiff ARGS
# Builds the simulator from /repo's current working tree, then runs it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
cd "$V"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off

build() {
  local h
  h=$( (cd "$REPO" && find . -path ./.git -prune -o \( -name '*.go' -o -name go.mod -o -name go.sum \) -type f -print0 | sort -z | xargs -0 sha256sum
        cd "$V/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16) || return 2
  B="$V/.build/$h"
  mkdir -p "$V/.build" || return 2
  exec 9>"$V/.build/lock" || return 2
  flock 9 || return 2
  if [ ! -x "$B/gevsim" ]; then
    find "$V/.build" -mindepth 1 -maxdepth 1 -type d -name '????????????????' -mmin +180 -exec rm -rf {} + 2>/dev/null
    rm -rf "$B"
    mkdir -p "$B/src" || return 2
    cp "$REPO/go.mod" "$B/" && cp "$V"/sim/go.mod "$V"/sim/go.sum "$B/src/" || return 2
    [ ! -f "$REPO/go.sum" ] || cp "$REPO/go.sum" "$B/"
    for d in core chans over kern harness cmd; do cp -r "$V/sim/$d" "$B/src/" || return 2; done
    (cd "$B/src" && go build -o "$B/simgen" ./cmd/simgen) || return 2
    if ! { "$B/simgen" -repo "$REPO" -modfile "$B/go.mod" -out "$B/src" &&
           (cd "$B/src" && go build -o "$B/gevsim.tmp" ./cmd/gevsim); } 2>"$B/err"; then
      # without the recording of memory accesses (C26 then sees pools, atomics, maps and buffers only)
      rm -rf "$B/src/gen"
      if ! { "$B/simgen" -plain -repo "$REPO" -modfile "$B/go.mod" -out "$B/src" &&
             (cd "$B/src" && go build -o "$B/gevsim.tmp" ./cmd/gevsim); }; then
        cat "$B/err" >&2
        return 2
      fi
      echo "note: built without access recording" >&2
    fi
    mv "$B/gevsim.tmp" "$B/gevsim" || return 2
  fi
  flock -u 9
  exec 9>&-
}

case "${1:-}" in
setup)
  build || { echo "build failed" >&2; exit 2; }
  ;;
check)
  build || { echo "build failed" >&2; exit 2; }
  exec "$B/gevsim" check -p "$2" -tier "${3:-quick}" -verif "$V"
  ;;
replay)
  build || { echo "build failed" >&2; exit 2; }
  shift
  f=$1; shift
  exec "$B/gevsim" replay "$@" "$f"
  ;;
kerndiff)
  # compare the simulated kernel with the real one (loopback sockets only)
  shift
  mkdir -p "$V/.build/kd" && (cd "$V/sim" && go build -o "$V/.build/kd/kerndiff" ./cmd/kerndiff) || exit 2
  exec "$V/.build/kd/kerndiff" "$@"
  ;;
*)
  echo "usage: run.sh check PROPERTY quick|thorough | replay FILE [-trace] | setup | kerndiff [-n N -secs S]" >&2
  exit 2
  ;;
esac
