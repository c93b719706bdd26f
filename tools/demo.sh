#!/bin/bash
# Runs demo_test.go, which lies beside this file, inside the package in $DIR
# (default: the library) of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
work=$(mktemp -d /tmp/demo.XXXXXX)
pkg=.
[ -f "$here/pkg" ] && pkg=$(cat "$here/pkg")
printf '{"Replace": {"%s/%s/planted_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$pkg" "$here" > "$work/overlay.json"
flags=
[ -f "$here/flags" ] && flags=$(cat "$here/flags")
timeout 280 go test $flags -overlay "$work/overlay.json" -count=1 -run '^TestPlanted' "./$pkg"
rc=$?
rm -r "$work"
exit $rc
