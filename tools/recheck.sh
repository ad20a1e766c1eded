#!/bin/bash
# recheck.sh ID...: apply each kept planted bug to /repo, rebuild, run its property's quick check, undo.
cd /verif
for i in "$@"; do
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "NOAPPLY $i"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  MC_SHOW=1 timeout 900 bash run.sh $p > /tmp/recheck.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" /tmp/recheck.log; then echo "CAUGHT $i: $(grep -m1 VIOLATED /tmp/recheck.log | cut -c1-150)"; else echo "MISSED $i rc=$rc"; fi
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
