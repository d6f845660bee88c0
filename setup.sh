#!/bin/bash
# Builds the harness once, which fills the build cache; each check builds it
# again from /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/evidence"
cd "$here/harness" || exit 1
go vet . && go build -o /dev/null . && CGO_ENABLED=1 go build -race -o /dev/null . 
