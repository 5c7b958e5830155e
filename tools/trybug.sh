#!/bin/bash
# trybug.sh ID PROP...: runs checks of /verif against a planted bug in /repo and undoes it
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in "$@"; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/bin/check.py $p > /tmp/w/try-$id-$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/w/try-$id-$p.log) $(grep ^VIOLATION /tmp/w/try-$id-$p.log | head -1 | cut -c1-200) $(tail -1 /tmp/w/try-$id-$p.log)"
done
