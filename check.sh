#!/bin/bash
# usage: check.sh <property> [gosym options]
set -u
cd "$(dirname "$0")"
if [ ! -x bin/gosym ]; then
  (cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gosym .) || exit 2
fi
p=$1; shift
exec ./bin/gosym check -property "$p" "$@"
