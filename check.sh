#!/bin/bash
# usage: check.sh <property> | setup | replay FILE | selftest [ID...]
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$here
export VERIF_GOROOT=${VERIF_GOROOT:-/opt/veriftools/go1.23.12}
mkdir -p "$here/.build"
tool=$here/.build/vt.$$
trap 'rm -f "$here/.build/vt.$$"' EXIT
( cd "$here/src/tool" && HOME=${HOME:-/root} PATH=$VERIF_GOROOT/bin:/usr/bin:/bin GOTOOLCHAIN=local GOFLAGS= GOWORK=off GOPROXY=off \
  GOCACHE=$here/.build/gocache CGO_ENABLED=0 go build -o "$tool" . ) || { echo "CHECK-ERROR: building the driver failed" >&2; exit 3; }
case "${1:-}" in
  setup) "$tool" build; exit $? ;;
  replay) "$tool" replay "$2"; exit $? ;;
  selftest) shift; "$tool" selftest "$@"; exit $? ;;
  "") echo "usage: check.sh <property>" >&2; exit 3 ;;
  *) "$tool" check "$1"; exit $? ;;
esac
