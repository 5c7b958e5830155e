#!/bin/bash
# trycopy.sh ID PROP: run a check against a copy of /repo with the seeded bug (leaves /repo alone)
set -u
d=/tmp/w/copy-$1
rm -rf "$d"; mkdir -p /tmp/w; cp -a /repo "$d"
git -C "$d" apply "/verif/seeded/$1/patch.diff" || exit 9
cd /verif; VERIF_DEBUG=1 VERIF_REPO="$d" VERIF_EDGES=/tmp/w/edges python3 bin/check.py "$2" > "/tmp/w/try-$1.log" 2>&1
echo "$1 $2 exit $?"; grep -m1 VIOLATION "/tmp/w/try-$1.log" | cut -c1-200; tail -1 "/tmp/w/try-$1.log" | cut -c1-200
rm -rf "$d"
