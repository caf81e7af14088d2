#!/bin/bash
# plant.sh ID PROPERTY : takes the uncommitted change in /tmp/wt (a worktree of /repo) plus /tmp/plant/{demo.rs,deps,meta.json},
# confirms it (builds, stable tests pass, demo fails with it and passes without) and stores it under /verif/seeded/ID
ID=$1; D=/verif/seeded/$ID; P=/tmp/plant
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
mkdir -p "$D"; cp $P/demo.rs $P/deps $P/meta.json "$D/"; cp /verif/tools/demo.sh "$D/demo.sh"
cp $P/patch.diff "$D/patch.diff"
cd /repo
bash "$D/demo.sh" > /tmp/plant/clean.log 2>&1; A=$?
git apply "$D/patch.diff" || exit 1
bash "$D/demo.sh" > /tmp/plant/bad.log 2>&1; B=$?
if [ "$2" != notest ]; then bash /verif/basetest.sh > /tmp/plant/tests.log; T=$(head -1 /tmp/plant/tests.log); fi
git checkout -q -- .
echo "$ID demo clean=$A patched=$B tests: $T"; tail -2 /tmp/plant/bad.log
