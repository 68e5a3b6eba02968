#!/bin/bash
# check.sh PROPERTY [TIER] [symgo flags]: decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
p=$1; shift
t=${VERIF_TIER:-quick}
if [ $# -gt 0 ] && [ "${1#-}" = "$1" ]; then t=$1; shift; fi
mkdir -p bin
(cd engine && go build -o ../bin/symgo .) || exit 2
exec bin/symgo check -property "$p" -tier "$t" "$@"
