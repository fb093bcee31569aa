#!/bin/bash
# usage: mutant.sh <patch.diff|-> <check ids...> : run checks against a scratch copy of /repo with the patch (no tests)
P=$1; shift
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$D/src"
if [ "$P" != "-" ]; then (cd "$D" && patch -p1 -s < "$P") || { echo "PATCH FAILED"; exit 3; }; fi
for c in "$@"; do
  VERIF_REPO=$D VERIF_SEED=${VERIF_SEED:-1} bash /verif/run_check.sh "$c" > "$D/$c.out" 2>&1; rc=$?
  echo "$c rc=$rc"; [ $rc -ne 0 ] && tail -${N:-6} "$D/$c.out"
done
rm -rf "$D"
