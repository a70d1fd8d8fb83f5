#!/bin/bash
# run.sh <property> : builds the monitors against /repo's working tree and runs
# one property. VERIF_SEED and VERIF_TIER come from the environment.
set -u
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_DIR=${VERIF_DIR:-$HERE} VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
# <property> -> main package and race detector
case $ID in
  C16) CMD=core; RACE= ;;
  C29) CMD=core; RACE=-race ;;
  C14|C17) CMD=engine; RACE=-race ;;
  C21|C22|C36) CMD=store; RACE= ;;
  C2[3-7]|C34) CMD=net; RACE= ;;
  *) CMD=engine; RACE= ;;
esac
case $ID in C22|C24|C26|C27|C33) RACE=-race ;; esac
[ -n "${VERIF_RACE:-}" ] && RACE=-race
[ $ID = C27 ] && export VERIF_PAR=8
T=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/h" && cp -r "$HERE/harness/." "$T/h/" && cp -r "$HERE/stub" "$T/stub" || exit 2
{ sed -e 's#^module .*#module verif/harness#' -e 's#^go 1\..*#go 1.21#' "$REPO/go.mod"
  echo
  echo "require github.com/go-ego/riot v0.0.0"
  echo "replace github.com/go-ego/riot => $REPO"
  echo "replace github.com/go-vgo/gt/info => $T/stub/gtinfo"
} > "$T/h/go.mod" || exit 2
cp "$REPO/go.sum" "$T/h/go.sum" || exit 2
cd "$T/h" || exit 2
if ! go build -tags verif $RACE -o "$T/harness" ./cmd/$CMD >"$T/build.log" 2>&1; then
  echo "BUILD FAILED"; tail -40 "$T/build.log"; exit 2
fi
cd "$VERIF_DIR" || exit 2
[ -n "${VERIF_BUILDONLY:-}" ] && { cp "$T/harness" "$VERIF_BUILDONLY"; exit 0; }
export VERIF_REPO_DIR=$REPO
"$T/harness" "$ID"
rc=$?
exit $rc
