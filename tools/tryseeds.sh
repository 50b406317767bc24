#!/bin/sh
# run the check of each planted change (or those given: "id [property]" lines on stdin with -) against it; /repo is restored
cd /verif || exit 2
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  n=$(./check ${PROP:-$p} 2>&1 | grep -c '^VIOLATION')
  git -C /repo checkout -q -- .
  echo "$s ${PROP:-$p} violations=$n"
done
git -C /repo status --short
