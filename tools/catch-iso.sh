#!/bin/bash
# catch-iso.sh <id>...: like catch.sh, but in a mount namespace with copies of /repo and
# /verif, so that the real ones stay as they are (also while a vcheck is running).
t=$(mktemp -d /tmp/iso.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; mkdir "$t/verif"
(cd /verif && tar c --exclude=./.git --exclude=./replays --exclude=./evidence .) | tar x -C "$t/verif"
unshare -Urm bash -s "$t" "$@" <<'X'
t=$1; shift
mount --bind "$t/repo" /repo && mount --bind "$t/verif" /verif || exit 1
cd /verif && bash tools/catch.sh "$@"
X
