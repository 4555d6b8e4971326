#!/bin/bash
# tools/seeds.sh "SEEDS" ID...   development aid: one build, then many seeds; prints only what is not quiet
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD"
./check.sh build || exit 2
S="$1"; shift
for id in "$@"; do for s in $S; do
  o=$(VERIF_SEED=$s VMON_VERBOSE=${V:-} timeout 900 .target/release/vmon check $id ${TIER:-quick} 2>&1); rc=$?
  echo "$o" | head -1 | cut -c1-160
  [ $rc = 0 ] || { echo "rc=$rc"; echo "$o" | grep -v "^  [a-zA-Z_]*: [0-9]*$" | head -12 | cut -c1-600; }
done; done
