#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   run the monitor of a property against /repo's working tree
#        run.sh build                       build the harness only
#        run.sh replay FILE                 run the case a violation was found in again
export HOME=${HOME:-/root}
[ -w "$HOME" ] || export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
export STFSVERIF_DIR=$here
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
cd "$here/harness" || exit 2

build() { # $1: output, $2...: flags
    out=$1; shift
    go build "$@" -o "$out" . || { echo "INCONCLUSIVE: the harness does not build against /repo" >&2; exit 2; }
}

case "$1" in
build)
    build "$here/.build/stfsverif"
    build "$here/.build/stfsverif-race" -race
    exit 0
    ;;
replay)
    bin=$here/.build/stfsverif
    flags=()
    if grep -q '"property": "C11"' "$2"; then bin=$bin-race; flags=(-race); fi
    f=$(realpath "$2")
    build "$bin" "${flags[@]}"
    exec "$bin" replay "$f"
    ;;
C11)
    bin=$here/.build/stfsverif-race
    build "$bin" -race
    ;;
C[0-9]*)
    bin=$here/.build/stfsverif
    build "$bin"
    ;;
*)
    sed -n 2,4p "$0"
    exit 2
    ;;
esac

[ -n "$2" ] && export VERIF_TIER=$2
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
exec "$bin" check "$1"
