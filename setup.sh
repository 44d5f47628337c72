#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence
for c in mc mcnet; do
  (cd $c && cargo build --offline --locked -q) 2>&1 | grep -E "^error" -A8
done
exit 0
