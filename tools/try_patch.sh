#!/bin/bash
# try_patch.sh PATCH [-R] CHECK...: applies a patch to a scratch copy of /repo,
# runs the existing tests and the checks given (default: all) against it.
# A development aid; no check uses it.
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/env.sh"
patch=$(realpath "$1"); shift
rev=; [ "$1" = -R ] && { rev=-R; shift; }
w=$(mktemp -d /tmp/verif-try.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/verif"
git -C /repo archive HEAD | tar -x -C "$w/repo"
cp -r "$here/harness" "$w/verif/harness"; rm -rf "$w/verif/harness/bin"
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
(cd "$w/repo" && git init -q . && git apply $rev "$patch") || { echo "PATCH FAILS"; exit 3; }
(cd "$w/repo" && go test -vet=off ./... >"$w/log" 2>&1) && echo "tests pass" || { echo "TESTS FAIL"; grep -E "FAIL|panic|error" "$w/log" | head -5; }
cd "$w/verif/harness" || exit 3
go build -o "$w/h" . || { echo "NO BUILD"; exit 3; }
checks=("$@"); [ $# = 0 ] && checks=($("$w/h" -list))
for c in "${checks[@]}"; do
	bin="$w/h"
	if [ "$c" = C08 ]; then CGO_ENABLED=1 go build -race -o "$w/hr" . && bin="$w/hr"; fi
	"$bin" -check "$c" -root "$w" >"$w/out" 2>&1; rc=$?
	case $rc in
	0) [ -n "$VERBOSE" ] && echo "$c quiet" ;;
	1) echo "$c CAUGHT ($(grep -m1 '^---' "$w/out"))"; [ -n "$VERBOSE" ] && grep -v VIOLATION "$w/out" | head -20 ;;
	*) echo "$c EXIT $rc: $(tail -1 "$w/out" | cut -c1-300)" ;;
	esac
done
