#!/bin/bash
# check.sh ID: decides one property on /repo's current tree. Exits 0 or 1 only.
cd "$(dirname "$0")" || exit 1
V=$PWD
id=$1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$V/bin" "$V/evidence"
fail() {
  echo "$1" >"$V/evidence/$id.replay.json"
  echo "$1"
  echo "VIOLATION property=$id replay=$V/evidence/$id.replay.json"
  exit 1
}
# the build cache makes this a no-op once setup_cmd has run
if ! (cd lint && go build -o "$V/bin/lint.$$" . && mv "$V/bin/lint.$$" "$V/bin/lint"); then
  [ -x "$V/bin/lint" ] || fail "the analyser does not build"
fi
"$V/bin/lint" -verif "$V" -dir "${REPO:-/repo}" -check "$id"
case $? in
0) exit 0 ;;
1) exit 1 ;;
*) fail "the analyser ended abnormally" ;;
esac
