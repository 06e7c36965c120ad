#!/bin/bash
# Builds the simulator from /repo's working tree. Prints the path of the binary.
# The result is cached by the content of /repo's sources and of the simulator.
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GO111MODULE=on GOWORK=off
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
B=$V/.build
mkdir -p "$B"
key=$( (cd "$R" && find . -path ./.git -prune -o -path ./bin -prune -o \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V/sim" && find . -type f -name '*.go' -print0 | sort -z | xargs -0 sha256sum; go version) | sha256sum | cut -c1-16)
out=$B/$key
exec 9>"$B/lock"
flock 9
if [ ! -x "$out/simticat" ]; then
  # keep the cache small
  ls -1dt "$B"/*/ 2>/dev/null | tail -n +6 | while read -r d; do rm -rf "${d%/}"; done
  rm -rf "$out"; mkdir -p "$out/copy" "$out/src"
  (cd "$R" && find . -path ./.git -prune -o -path ./bin -prune -o \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -type f -print0 | tar c --null -T - ) | tar x -C "$out/copy"
  if [ ! -x "$B/zrw.$(sha256sum "$V"/sim/rewrite/*.go | sha256sum | cut -c1-12)" ]; then
    rm -f "$B"/zrw.*
    (cd "$V/sim/rewrite" && go build -o "$B/zrw.$(sha256sum "$V"/sim/rewrite/*.go | sha256sum | cut -c1-12)" .)
  fi
  (cd "$out/copy" && "$B"/zrw.* "$out/copy" "$out/src") >"$out/zrw.log" 2>&1 || { cat "$out/zrw.log" >&2; exit 2; }
  sed 's/^go .*/go 1.21/' "$out/copy/go.mod" >"$out/src/go.mod"
  cp "$out/copy/go.sum" "$out/src/go.sum" 2>/dev/null || true
  mkdir -p "$out/src/zsim"
  cp -r "$V/sim/rt" "$V/sim/shim" "$V/sim/harness" "$out/src/zsim/"
  (cd "$out/src" && go build -o "$out/simticat.tmp" ./zsim/harness) >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; exit 2; }
  rm -rf "$out/copy"
  mv "$out/simticat.tmp" "$out/simticat"
fi
echo "$out/simticat"
