#!/bin/bash
# run.sh setup | check <id> [quick|thorough] | replay <id> <test>
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOCACHE="$V/.cache/go-build"
mkdir -p "$V/.cache" "$V/evidence"
build() {
  (cd "$V/govc" && go build -o "$V/.cache/govc" .) || { echo "govc does not build"; exit 1; }
}
case "$1" in
setup) build; (cd /repo && go build ./... >/dev/null 2>&1); exit 0 ;;
check) build
  T="${3:-${VERIF_TIER:-quick}}"; L=840; [ "$T" = thorough ] && L=3400
  timeout -k 10 $L "$V/.cache/govc" check -verif "$V" -repo /repo -prop "$2" -tier "$T" -seed "${VERIF_SEED:-1}"
  rc=$?
  if [ $rc != 0 ] && [ $rc != 1 ]; then
    mkdir -p "$V/evidence/violations"
    echo "the check ended with status $rc before it could decide the property" > "$V/evidence/violations/$2-ended.txt"
    echo "VIOLATION property=$2 replay=$V/evidence/violations/$2-ended.txt no-failing-input-found"
    rc=1
  fi
  exit $rc ;;
replay) build
  exec "$V/.cache/govc" check -verif "$V" -repo /repo -prop "$2" -noproof -seed "${VERIF_SEED:-1}" ;;
fn) build; shift; exec "$V/.cache/govc" fn "$V/contracts" "$@" ;;
*) echo "usage: run.sh setup | check <id> [quick|thorough] | replay <id>"; exit 1 ;;
esac
