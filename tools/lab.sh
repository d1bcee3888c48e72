#!/bin/bash
# lab.sh <dir>: a copy of /repo and /verif under <dir>, with paths changed, to plant and
# check without touching the originals. Run again to refresh /verif's sources.
L=${1:?dir}; mkdir -p $L/verif
[ -d $L/repo ] || { git clone -q /repo $L/repo; cp /repo/Cargo.lock $L/repo/ 2>/dev/null; }
git -C $L/repo checkout -q -- . ; git -C $L/repo pull -q /repo HEAD 2>/dev/null
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays /verif/ $L/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./evidence --exclude=./replays . | tar xf - -C $L/verif)
mkdir -p $L/verif/evidence $L/verif/replays
cd $L/verif
sed -i "s/^incremental = false/incremental = true/" harness/Cargo.toml
grep -rlE "/verif|/repo" check.sh harness tools/plant.sh tools/seed.py seeded/*/demo.sh | xargs sed -i "s#/verif\b#$L/verif#g; s#/repo\b#$L/repo#g"
