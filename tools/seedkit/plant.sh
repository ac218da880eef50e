#!/bin/bash
# usage: plant.sh ID  — expects /tmp/seed/ID/{edit.py,main.rs,meta.json}; edit.py edits files relative to its cwd.
# Builds a scratch copy, checks demo passes clean and fails planted, writes /verif/seeded/ID.
id=$1; S=/tmp/seed/$id; W=/tmp/seed/work
K=/verif/tools/seedkit
mkdir -p /tmp/seed; [ -d $W ] || git clone -q /repo $W
cd $W && git fetch -q origin && git reset -q --hard $(git -C /repo rev-parse HEAD)
cp /repo/Cargo.lock $W/ 2>/dev/null
mkdir -p ${SEEDOUT:-/verif/seeded}/$id; O=${SEEDOUT:-/verif/seeded}/$id
cp $K/demo.sh $K/Cargo.lock $S/main.rs $S/meta.json $O/
bash $O/demo.sh > /tmp/seed/$id/clean.log 2>&1; c=$?
python3 $S/edit.py || { echo "edit failed"; exit 1; }
git diff > $O/patch.diff
bash $O/demo.sh > /tmp/seed/$id/bad.log 2>&1; b=$?
git checkout -q -- .
echo "$id clean=$c planted=$b"; [ $c = 0 ] || tail -3 /tmp/seed/$id/clean.log; tail -2 /tmp/seed/$id/bad.log
git -C /repo apply --check $O/patch.diff || echo "patch does not apply"
