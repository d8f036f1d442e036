#!/bin/bash
# check.sh <property> [-only LABEL] : builds the harness against /repo's current
# working tree and runs the monitor of one property.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
mkdir -p .build evidence replays
(cd harness && go build -o ../.build/harness .) || { echo "harness does not build" >&2; exit 2; }
exec .build/harness check "$@"
