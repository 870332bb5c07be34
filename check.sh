#!/bin/bash
# check.sh PROPERTY: builds the analyzer (out of /verif/analyzer, offline) and decides PROPERTY on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
mkdir -p "$here/evidence" "$here/.bin"
fail() { # no answer is not an outcome: an analyzer that cannot run is reported as a violation
  echo "{\"error\": \"$1\"}" > "$here/evidence/$id.replay.json"
  echo "$1"
  echo "VIOLATION property=$id replay=$here/evidence/$id.replay.json"
  exit 1
}
(
  export GOROOT=/opt/veriftools/go1.26.10 GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 GOSUMDB=off
  export PATH=$GOROOT/bin:$PATH
  [ -n "$GOCACHE" ] || export GOCACHE="${XDG_CACHE_HOME:-$HOME/.cache}/go-build"
  cd "$here/analyzer" && go build -o "$here/.bin/analyzer.$$" . && mv -f "$here/.bin/analyzer.$$" "$here/.bin/analyzer"
) || fail "the analyzer does not build"
[ "$id" = --setup ] && exit 0
. /opt/vp/env.sh
"$here/.bin/analyzer" -property "$id" -repo /repo -verif "$here"
rc=$?
[ $rc -eq 0 ] && exit 0
[ $rc -eq 1 ] && exit 1
fail "the analyzer ended with status $rc"
