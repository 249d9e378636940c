#!/bin/bash
# runs the Go test beside this file inside the package PKG, through an overlay
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG
