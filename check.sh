#!/bin/bash
# check.sh <property> [quick|thorough]: builds the monitor of one property against
# the working tree of /repo and runs it. Exit 0: held; 1: VIOLATION; other: no answer.
set -u
cd "$(dirname "$0")" || exit 9
id=${1:?usage: check.sh <property> [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
unset GODEBUG GORACE GOMAXPROCS GOGC
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
flags=()
[ -f "harness/cmd/$pkg/BUILDFLAGS" ] && read -r -a flags < "harness/cmd/$pkg/BUILDFLAGS"
if [ -n "${VERIF_REPO:-}" ]; then # development only: judge a scratch copy
  sed "s#=> /repo#=> $VERIF_REPO#" harness/go.mod > "$tmp/go.mod"
  flags+=(-modfile "$tmp/go.mod")
fi
if ! (cd harness && go build "${flags[@]}" -o "$tmp/monitor" "./cmd/$pkg") > "$tmp/build.log" 2>&1; then
  echo "INCONCLUSIVE property=$id: the monitor does not build against the tree"
  head -c 4000 "$tmp/build.log"
  exit 2
fi
if [ -f "harness/cmd/$pkg/ALTFLAGS" ]; then
  read -r -a alt < "harness/cmd/$pkg/ALTFLAGS"
  [ -n "${VERIF_REPO:-}" ] && alt+=(-modfile "$tmp/go.mod")
  if (cd harness && go build "${alt[@]}" -o "$tmp/monitor-alt" "./cmd/$pkg") > "$tmp/build.log" 2>&1; then
    export VK_ALT="$tmp/monitor-alt"
  else
    echo "INCONCLUSIVE property=$id: the alternative build of the monitor fails"
    head -c 4000 "$tmp/build.log"
    exit 2
  fi
fi
TMPDIR="$tmp" "$tmp/monitor" "$tier"
rc=$?
exit $rc
