#!/bin/bash
# Builds the checker from /verif/checker and decides one property on /repo.
# usage: check.sh <property>
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p .bin evidence
rm -f "$PWD/evidence/$1.json" "$PWD/evidence/$1.violations.txt"
(cd checker && go build -o ../.bin/capverif .) || exit 2
exec ./.bin/capverif check "$1"
