#!/bin/bash
# runseeds.sh [ids]: applies each planted bug to /repo, runs its property's check, undoes it
set -f; L=("$@"); set +f; cd /verif/seeded; set -- "${L[@]}"
for i in $(ls -d ${@:-*}); do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s); (cd /verif; timeout 900 python3 check.py $p quick > /tmp/rs.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/rs.log) $(tail -1 /tmp/rs.log | cut -c1-140)"
done
