#!/bin/bash
# tools/reseed.sh [id prefix ...]: run the property's quick check against each seeded bug in a scratch copy
for p in "${@:-C}"; do for d in /verif/seeded/$p*; do
  id=$(basename "$d"); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/reseed.XXXX); cp -a /repo "$t/repo"; git -C "$t/repo" apply "$d/patch.diff" || echo "$id does not apply"
  VERIF_REPO=$t/repo VERIF_OUT=$t/out python3 /verif/check.py "$prop" > "$t/log" 2>&1; rc=$?
  [ $rc = 1 ] || echo "$id rc $rc"
  rm -r "$t"
done; done
