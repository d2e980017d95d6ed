#!/bin/bash
# catch.sh ID [CHECK...]: run the check of a planted bug's property against it in /repo, then undo
id=$1; shift
d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $p; do
  s=$(date +%s); out=$(cd /verif && ./check.sh $c ${TIER:-quick} 2>&1); rc=$?
  echo "$id $c exit=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -a VIOLATION | head -1)"
done
