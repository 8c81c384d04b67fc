export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/tmp/mut/basecache GOFLAGS=-mod=mod
cd /verif/harness
for p in ./cmd/vhs ./cmd/vhg github.com/webrpc/webrpc/cmd/webrpc-gen; do go build -ldflags '-s -w -X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/mut/x $p; done
cd /repo; go test -vet=off -count=1 ./schema/... ./tests/... | tail -3
rm -f /tmp/mut/x; du -sh /tmp/mut/basecache
