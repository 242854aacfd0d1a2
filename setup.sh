#!/bin/bash
# Builds every harness once against /repo, so that a broken setup shows early. The checks build what they need themselves.
set -e
cd "$(dirname "$0")/harness"
. /opt/vp/env.sh
export GOPROXY=off
mkdir -p ../evidence ../replays
for p in */; do
  p=${p%/}
  [ "$p" = kit ] && continue
  ls "$p"/*_test.go >/dev/null 2>&1 || continue
  go test -c -vet=off -tags verif -o /dev/null "./$p"
done
go build -tags verif ./...
echo setup ok
