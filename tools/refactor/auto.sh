#!/bin/bash
# auto.sh [ID...]: all checks on a copy of /repo in which every file was rewritten by ./auto (same behaviour)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
(cd "$(dirname "$0")/auto" && go build -o "$t/auto" .) || exit 2
cp -a /repo "$t/r"
(cd "$t/r" && "$t/auto" $(find pkg cmd -name '*.go' -not -name '*_test.go') && go build ./... && git diff >"$t/auto.diff") || exit 2
"$(dirname "$0")/../with.sh" "$t/auto.diff" tools/all.sh "$@"
