#!/bin/bash
# Runs demo_test.go (beside this file) as a test of the package in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
pkg=.
[ -f "$D/pkg" ] && pkg=$(cat "$D/pkg")
O=$(mktemp -d) || exit 1
trap 'rm -rf "$O"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$pkg" "$D" > "$O/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$O/overlay.json" -run 'TestZZDemo' "./$pkg"
