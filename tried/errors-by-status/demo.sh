#!/bin/bash
# exit 0: behaves as it should; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$repo/tests/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 60s -run '^TestDemo$' ./tests
