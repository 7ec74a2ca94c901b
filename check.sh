#!/bin/bash
# check.sh <property-id>: builds the analyser if needed and decides one
# property from /repo's current source. Exit 0: held; 1: VIOLATION printed.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export LLREPO=${LLREPO:-/repo} LLVERIF=$here
bin=$here/.bin/llcheck
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/llcheck" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
  echo "cannot build the analyser"; exit 3
fi
if [ "$1" = build ]; then exit 0; fi
exec "$bin" check "$@"
