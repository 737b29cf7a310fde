#!/bin/bash
# run.sh <property id>: builds the monitors against /repo's working tree and
# runs the check of one property.  Exit 0: held on everything explored; exit 1
# with a VIOLATION line: broken; anything else: no verdict.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=${1:?usage: run.sh <property id>}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export XV_VERIF=$here
mkdir -p "$here/build" "$here/evidence"
race=
case $id in
  C12) race=-race ;;
esac
out=$here/build/xv$race
if ! (cd "$here/harness" && go build $race -o "$out" .); then
  echo "INCONCLUSIVE property=$id the harness does not build against /repo"
  exit 3
fi
if [ "$id" = C08 ] && (cd "$here/harness" && CGO_ENABLED=0 GOARCH=386 go build -o "$here/build/xv-386" .); then
  export XV_386=$here/build/xv-386
fi
exec "$out" check "$id"
