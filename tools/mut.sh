#!/bin/bash
# mut.sh <patch or "sed-script-file"> <checks...>: runs checks against a patched scratch copy of /repo (development only)
P=$(realpath $1); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. $D/ && cd $D && git checkout -q -- . && { git apply $P || { echo "NOAPPLY $P"; rm -rf $D; exit 3; }; }
for c in "$@"; do
  out=$(cd /verif && VERIF_REPO=$D VERIF_GOCACHE=${VERIF_GOCACHE:-/tmp/gc1} python3 run.py $c 2>&1); rc=$?
  echo "$(basename $(dirname $P))/$(basename $P) $c rc=$rc $(echo "$out" | grep -m2 '^  \[' | cut -c1-200)"
done
rm -rf $D
