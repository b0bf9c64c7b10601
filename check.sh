#!/bin/bash
# bash check.sh <property> [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 1
V=$PWD
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GOOS GOARCH
id=$1; tier=${2:-${VERIF_TIER:-quick}}
bin=analyzer/bin/modesan
stale() {
  [ -x $bin ] || return 0
  [ -n "$(find analyzer -name bin -prune -o -type f -newer $bin -print -quit)" ]
}
if stale; then
  mkdir -p analyzer/bin
  out=$(cd analyzer && go build -o bin/modesan.$$ . 2>&1 && mv -f bin/modesan.$$ bin/modesan) || {
    mkdir -p evidence
    printf 'the analyzer does not build:\n%s\n' "$out" > "evidence/$id.replay.txt"
    echo "VIOLATION property=$id replay=$V/evidence/$id.replay.txt"
    cat "evidence/$id.replay.txt"
    exit 1
  }
fi
$bin check -property "$id" -tier "$tier" -repo "${REPO:-/repo}" -verif "$V"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p evidence
  echo "the analyzer ended with status $rc" > "evidence/$id.replay.txt"
  echo "VIOLATION property=$id replay=$V/evidence/$id.replay.txt"
  exit 1
fi
exit $rc
