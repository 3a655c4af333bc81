#!/bin/bash
# Builds the harness against /repo's current working tree. Usage: build.sh OUT_BINARY WORKDIR [TAGS]
# TAGS=race builds with the race detector.
# TAGS=cli adds the properties about the command-line tools and the REST API (command/healer/cmd).
# Everything it writes goes to WORKDIR (overlay sources, go.mod copy) and GOCACHE.
set -e
OUT=$1; W=$2; TAGS=$3; RACE=
[ "$TAGS" = race ] && { RACE=-race; TAGS=; }
H=$(cd "$(dirname "$0")" && pwd)
G=/opt/veriftools/go1.25.14
export HOME=/root GOROOT=$G PATH=$G/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off \
  GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build-verif}
mkdir -p "$W/ov"
cd "$W"
# --- overlay of standard-library files: (1) mutex/waitgroup waits count as idle for the virtual
# clock, (2) dial and listen hooks, (3) synctest.Run exported, (4) with TAGS=cli a hook of os.Exit, and a stand-in for
# the generated (git-ignored) package docs. /repo is not changed by this.
sed 's/^\twaitReasonSyncCondWait:          true,/&\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSyncWaitGroupWait: true,/' $G/src/runtime/runtime2.go > ov/runtime2.go
grep -q 'waitReasonSyncMutexLock: true' ov/runtime2.go
awk '{print} /^func \(d \*Dialer\) DialContext\(/{print "\tif VerifDialHook != nil {\n\t\tif c, err, ok := VerifDialHook(ctx, d.Timeout, network, address); ok {\n\t\t\treturn c, err\n\t\t}\n\t}"}' $G/src/net/dial.go > ov/dial.go
sed -i 's/^func Listen(network, address string) (Listener, error) {/&\n\tif VerifListenHook != nil {\n\t\tif l, ok := VerifListenHook(network, address); ok {\n\t\t\treturn l, nil\n\t\t}\n\t}/' ov/dial.go
grep -q 'VerifListenHook(network' ov/dial.go
cat >> ov/dial.go <<'X'

// VerifListenHook is installed by the verification harness.
var VerifListenHook func(network, address string) (Listener, bool)

// VerifDialHook is installed by the verification harness.
var VerifDialHook func(ctx context.Context, timeout time.Duration, network, address string) (Conn, error, bool)
X
cp $G/src/testing/synctest/synctest.go ov/synctest.go
cat >> ov/synctest.go <<'X'

// Run is exported by the verification overlay.
func Run(f func()) { synctest.Run(f) }
X
MORE=
if [ -n "$TAGS" ]; then
  awk '{print} /^func Exit\(code int\) \{/{print "\tif VerifExitHook != nil {\n\t\tVerifExitHook(code)\n\t}"}' $G/src/os/proc.go > ov/proc.go
  printf '\n// VerifExitHook is installed by the verification harness.\nvar VerifExitHook func(code int)\n' >> ov/proc.go
  echo 'package docs' > ov/docs.go
  MORE="\"$G/src/os/proc.go\":\"$W/ov/proc.go\",\"/repo/docs/docs.go\":\"$W/ov/docs.go\","
fi
cat > ov.json <<X
{"Replace":{$MORE"$G/src/runtime/runtime2.go":"$W/ov/runtime2.go","$G/src/net/dial.go":"$W/ov/dial.go","$G/src/testing/synctest/synctest.go":"$W/ov/synctest.go"}}
X
# module file: ours plus /repo's requirements and sums, so nothing is fetched
cp "$H/harness/go.mod" "$W/go.mod"
sed -n '/^require/,/^)/p' /repo/go.mod >> "$W/go.mod"
cp /repo/go.sum "$W/go.sum"
cd "$H/harness"
go build $RACE ${TAGS:+-tags $TAGS} -overlay "$W/ov.json" -modfile "$W/go.mod" -o "$OUT" ./cmd/vrun
