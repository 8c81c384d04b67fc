#!/bin/bash
# check.sh ID            decides property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
# check.sh ID case N     runs a single case and shows its inputs
# check.sh build         builds everything once, to warm the build cache
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

scratch=$(mktemp -d /tmp/webrpc-check.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$scratch/" || exit 2
ldflags='-X github.com/webrpc/webrpc.VERSION=v0.30.0'
try() { # try OUT PACKAGE [FLAGS...]
    local out=$1 pkg=$2; shift 2
    (cd "$here/harness" && go build -modfile="$scratch/go.mod" -trimpath=false -ldflags "$ldflags" "$@" -o "$scratch/$out" "$pkg")
}
build() {
    try "$@" || {
        echo "check.sh: cannot build $2 from /repo" >&2
        exit 2
    }
}
gen=github.com/webrpc/webrpc/cmd/webrpc-gen
tool=github.com/webrpc/webrpc/cmd/webrpc-test

race=
case ${1:-} in
build)
    build vhs ./cmd/vhs
    build vhg ./cmd/vhg
    build vhg ./cmd/vhg -race
    build vht ./cmd/vht -race
    build webrpc-gen $gen
    build webrpc-test $tool
    exit 0;;
C20) bin=vht race=-race;;
C11) bin=vhg race=-race;;
C16|C17|C18|C19) bin=vhg;;
C[0-9][0-9]) bin=vhs;;
*) echo "usage: $0 ID [case N]" >&2; exit 2;;
esac

build $bin ./cmd/$bin $race
case $1 in
C07|C09|C12|C13|C14) # what is checked through the command line is left out if it doesn't build
    try webrpc-gen $gen && export VERIF_WEBRPC_GEN=$scratch/webrpc-gen;;
C11|C17|C18|C19)
    build webrpc-gen $gen
    export VERIF_WEBRPC_GEN=$scratch/webrpc-gen;;
C20)
    build webrpc-test $tool
    export VERIF_WEBRPC_TEST=$scratch/webrpc-test;;
esac
export VERIF_EVIDENCE=$here/evidence VERIF_SCRATCH=$scratch VERIF_KNOWN=$here/known-findings.txt VERIF_HARNESS=$here/harness
if [ "${2:-}" = case ]; then
    "$scratch/$bin" case "$1" "$3"
else
    "$scratch/$bin" check "$1"
fi
