#!/bin/bash
# quiet.sh PATCH: apply a behaviour-preserving patch to /repo, run every check, undo
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
git -C /repo apply "$1" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif; for i in ${2:-$(seq -f 'C%02g' 1 24)}; do s=$SECONDS; out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $i 2>&1); rc=$?; echo "$i rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m2 -E 'VIOLATION|error' | cut -c1-300)"; done
