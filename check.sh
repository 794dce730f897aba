#!/bin/bash
# check.sh ID — rebuilds the monitored binaries from /repo's working tree and decides property ID.
# exit 0: held, 1: VIOLATION, 2: inconclusive, 3: the machinery failed
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR="$here"
out=$(mktemp -d /tmp/vmon-bin.XXXXXX) || exit 3
trap 'rm -rf "$out"' EXIT
cd "$here/harness" || exit 3
build() {
	case "$1" in
	plain) go build -mod=readonly -o "$out/vmon-plain" . ;;
	race) go build -mod=readonly -race -o "$out/vmon-race" . ;;
	checkptr) go build -mod=readonly -gcflags=all=-d=checkptr -o "$out/vmon-checkptr" . ;;
	debug) go build -mod=readonly -tags debug -o "$out/vmon-debug" . ;;
	esac
}
build plain || { echo "build failed"; exit 3; }
pids=()
for v in $("$out/vmon-plain" variants "$1"); do
	if [ "$v" != plain ]; then build "$v" & pids+=($!); fi
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed"; exit 3; }; done
case "$2" in
replay) "$out/vmon-plain" replay "$3" ;;
*) "$out/vmon-plain" check "$1" ;;
esac
exit $?
