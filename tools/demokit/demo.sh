#!/bin/bash
# Builds the demonstration (main.go beside this file) against the tree in /repo and runs it. The kit directory holds
# an in-memory Kafka cluster; three standard-library files are overlaid so that it runs under virtual time.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
G=/opt/veriftools/go1.25.14
export HOME=/root GOROOT=$G PATH=$G/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
mkdir -p "$W/ov" "$W/src/demo"
cp -r "$D"/kit/* "$W/src/"
cp "$D/main.go" "$W/src/demo/"
sed 's/^\twaitReasonSyncCondWait:          true,/&\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSyncWaitGroupWait: true,/' $G/src/runtime/runtime2.go > "$W/ov/runtime2.go"
awk '{print} /^func \(d \*Dialer\) DialContext\(/{print "\tif VerifDialHook != nil {\n\t\tif c, err, ok := VerifDialHook(ctx, d.Timeout, network, address); ok {\n\t\t\treturn c, err\n\t\t}\n\t}"}' $G/src/net/dial.go > "$W/ov/dial.go"
printf '\nvar VerifDialHook func(ctx context.Context, timeout time.Duration, network, address string) (Conn, error, bool)\n' >> "$W/ov/dial.go"
cp $G/src/testing/synctest/synctest.go "$W/ov/synctest.go"
printf '\nfunc Run(f func()) { synctest.Run(f) }\n' >> "$W/ov/synctest.go"
echo "package docs" > "$W/ov/docs.go" # generated, imported by the command-line tools
cat > "$W/ov.json" <<J
{"Replace":{"/repo/docs/docs.go":"$W/ov/docs.go","$G/src/runtime/runtime2.go":"$W/ov/runtime2.go","$G/src/net/dial.go":"$W/ov/dial.go","$G/src/testing/synctest/synctest.go":"$W/ov/synctest.go"}}
J
sed -n '/^require/,/^)/p' /repo/go.mod >> "$W/src/go.mod"
cp /repo/go.sum "$W/src/go.sum"
cd "$W/src"
RACE=; [ -e "$D/race" ] && RACE=-race # some need the race detector
go build $RACE -overlay "$W/ov.json" -o "$W/demo" ./demo
timeout 120 "$W/demo"
