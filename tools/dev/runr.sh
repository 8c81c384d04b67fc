#!/bin/bash
# runr.sh bin id...   race build
. /opt/vp/env.sh; cd /verif/harness
go vet ./cmd/$1 && go build -race -ldflags '-X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/${1}r ./cmd/$1 || exit 3
b=$1; shift
for id in "$@"; do VERIF_WEBRPC_GEN=/tmp/webrpc-gen VERIF_WEBRPC_TEST=/tmp/webrpc-test VERIF_KNOWN=/verif/known-findings.txt VERIF_EVIDENCE=/tmp/ev /tmp/${b}r check $id; done
