#!/bin/bash
# Runs the demonstration test in a package of its own.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/zdemo.XXXXXX)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off GOWORK=off
P=internal/zdemo
printf '{"Replace": {"%s/%s/util_test.go": "%s/util_test.go", "%s/%s/demo_test.go": "%s/demo_test.go"}}' "$PWD" "$P" "$D" "$PWD" "$P" "$D" > "$W/o.json"
cp go.mod "$W/m.mod" && cp go.sum "$W/m.sum"
export TMPDIR=$W GOFLAGS=
go test -c @FLAGS@ -vet=off -mod=mod -modfile="$W/m.mod" -overlay "$W/o.json" -o "$W/demo" ./$P && (cd "$W" && ./demo -test.timeout 120s -test.v)
rc=$?
chmod -R u+w "$W"
case "$W" in /tmp/zdemo.*) rm -rf "$W" ;; esac
exit $rc
