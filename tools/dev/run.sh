#!/bin/bash
# run.sh bin id [tier]
. /opt/vp/env.sh; cd /verif/harness
go vet ./cmd/$1 && go build -ldflags '-X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/$1 ./cmd/$1 || exit 3
shift_bin=$1; shift
for id in "$@"; do VERIF_EVIDENCE=/tmp/ev /tmp/$shift_bin check $id; done
