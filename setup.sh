#!/bin/bash
# Builds the driver and warms the build cache with every variant of the
# instrumented harness.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
b="$here/.build/setup-$$"
mkdir -p "$b"
trap 'rm -rf "$b"' EXIT
( cd "$here/tools/vdrive" && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$b/vdrive" . ) || exit 1
for v in "norace" "norace appengine" "race" "race appengine"; do
  "$b/vdrive" build "$b/w" $v || exit 1
  rm -rf "$b/w"
done
exit 0
