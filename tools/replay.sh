#!/bin/bash
# replay.sh 'ENTRY;CHOICES;HEXBYTES': runs a counterexample against the real code.
cd "$(dirname "$0")/.."
B=${VERIF_BUILD:-.build}${VERIF_FEATURES:+/$VERIF_FEATURES}
[ -x $B/replay ] || bash tools/build_ir.sh $B $VERIF_FEATURES || exit 2
REPLAY_MSG=1 $B/replay "$1"
