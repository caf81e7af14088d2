#!/bin/bash
# try.sh SEEDED-ID PROPERTY.. : run checks against a planted change, then undo it
D=/verif/seeded/$1; shift
git -C /repo diff --quiet || { echo dirty; exit 1; }
git -C /repo apply "$D/patch.diff" || exit 1
for p in "$@"; do bash /verif/run.sh $p > /tmp/try.log 2>&1; rc=$?; echo "$(basename $D) $p rc=$rc $(grep -m1 'violated rule' /tmp/try.log | cut -c1-200)"; done
git -C /repo checkout -q -- .
