#!/bin/bash
# run.sh PROPERTY quick|thorough: builds the driver and decides one property
# against /repo's current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
b="$here/.build/bin-$$"
mkdir -p "$b"
trap 'rm -rf "$b"' EXIT
( cd "$here/tools/vdrive" && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$b/vdrive" . ) || exit 2
"$b/vdrive" check "$1" "$2"
