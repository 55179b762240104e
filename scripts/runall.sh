#!/bin/bash
# runs every registered check (TIER quick or thorough), prints exit codes and times
cd "$(dirname "$0")/.."
for i in $(python3 -c "import sys; sys.path.insert(0,'scripts'); import spec; print(*[p['id'] for p in spec.P])"); do
  s=$(date +%s); python3 scripts/check.py $i --tier ${1:-quick} > /tmp/chk-$i.log 2>&1; r=$?
  echo "$i rc=$r $(( $(date +%s) - s ))s $(tail -1 /tmp/chk-$i.log)"
done
