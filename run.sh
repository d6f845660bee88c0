#!/bin/bash
# run.sh <property> [harness flags]: builds the harness against /repo's current
# working tree, outside of both repositories, and runs a check.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
shift
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
flags=()
if [ "$id" = C08 ]; then
	flags=(-race)
	export CGO_ENABLED=1
fi
cd "$here/harness" || exit 2
if ! go build "${flags[@]}" -o "$bin/harness" . >"$bin/log" 2>&1; then
	echo "the harness does not build against /repo:"
	head -50 "$bin/log"
	exit 2
fi
"$bin/harness" -check "$id" -root "$here" "$@"
