#!/bin/bash
# warms the build cache for both builds of the harness
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
t=$(mktemp -d /tmp/vh.XXXXXX)
GOFLAGS=-mod=mod go build -tags verif -o "$t/a" . && GOFLAGS=-mod=mod go build -race -tags verif -o "$t/b" .
rc=$?
rm -rf "$t"
exit $rc
