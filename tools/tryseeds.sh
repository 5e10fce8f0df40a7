#!/bin/bash
# dev: runs each seeded change's property check against it: tryseeds.sh [ids]
cd /verif/seeded
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  t=$(date +%s); (cd /verif && timeout 900 python3 check.py $p quick > /tmp/ts.out 2>&1; echo "$i $p exit $? $(( $(date +%s)-t )) s: $(grep -E 'VIOLATION|proved|stand-in|bounded|agree' /tmp/ts.out | tail -1 | cut -c1-200)")
  git -C /repo checkout -- .
done
