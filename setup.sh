#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
mkdir -p .build evidence replays
(cd harness && go build -o ../.build/harness .) || exit 1
.build/harness setup
