#!/bin/bash
# warms the build cache: every check builds its own binaries from /repo's working tree
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
out=$(mktemp -d /tmp/vmon-setup.XXXXXX) || exit 3
trap 'rm -rf "$out"' EXIT
cd "$here/harness" || exit 3
go build -mod=readonly -o "$out/plain" . && go build -mod=readonly -race -o "$out/race" . && go build -mod=readonly -gcflags=all=-d=checkptr -o "$out/checkptr" .
