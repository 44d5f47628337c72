#!/bin/bash
# run.sh ID [quick|thorough]: builds the harness against /repo's working tree
# and runs the check of one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID=$1; export MC_TIER=${2:-${VERIF_TIER:-quick}} MC_VERIF=$PWD
case $ID in C23|C24|C27|C29) CRATE=mcnet;; *) CRATE=mc;; esac
S=$(date +%s.%N)
mkdir -p evidence
if ! (cd $CRATE && cargo build --offline --locked -q) >$PWD/evidence/build-$ID.log 2>&1; then
  mkdir -p evidence; echo "BUILD FAILED"; tail -40 evidence/build-$ID.log; exit 2
fi
export MC_BUILD_S=$(echo "$(date +%s.%N) - $S" | bc 2>/dev/null)
shift; shift
exec $CARGO_TARGET_DIR/debug/$CRATE $ID "$@"
