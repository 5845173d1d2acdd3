#!/bin/bash
# development helper: seed.sh ID...   tries planted bugs against /repo, which must be clean
# prints: baseline tests passed with the bug, demo on the clean tree / with the bug, the property's check
set -u
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --short -uno)" ] || { echo "/repo is not clean"; exit 2; }
  if [ -z "${NOCLEAN:-}" ]; then (cd /repo; bash $d/demo.sh) >/tmp/seed.$id.clean 2>&1; clean=$?; else clean=-; fi
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  base=$(bash /verif/base.sh 2>&1 | tail -1)
  (cd /repo; bash $d/demo.sh) >/tmp/seed.$id.bug 2>&1; bug=$?
  t=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh $prop >/tmp/seed.$id.check 2>&1; rc=$?
  t=$(( $(date +%s) - t ))
  git -C /repo checkout -q -- .
  echo "$id $prop $rc" >>${SEED_LOG:-/tmp/seed.results}
  echo "$id $prop | $base | demo clean=$clean bug=$bug | check rc=$rc ${t}s $(grep -m1 VIOLATION /tmp/seed.$id.check)"
done
