#!/bin/bash
# tryseed.sh NAME [nocheck]: demo on the clean tree, demo and check with the patch.
N=$1; D=/verif/seeded/$N; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
if [ "$2" != nodemo ]; then bash $D/demo.sh >/tmp/d0.log 2>&1; echo "$N clean demo: $? ($(tail -1 /tmp/d0.log | cut -c1-200))"; fi
git apply $D/patch.diff || exit 2
if [ "$2" != nodemo ]; then bash $D/demo.sh >/tmp/d1.log 2>&1; echo "$N patched demo: $? ($(tail -1 /tmp/d1.log | cut -c1-200))"; fi
if [ "$2" != nocheck ]; then (cd /verif && timeout 900 ./run.sh $P quick >/tmp/c.log 2>&1; echo "$N check $P: $? ($(grep -m1 VIOLATION /tmp/c.log | cut -c1-300))"; tail -1 /tmp/c.log | cut -c1-200); fi
git checkout -q -- .
