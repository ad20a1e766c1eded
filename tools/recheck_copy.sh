#!/bin/bash
# recheck_copy.sh ID...: applies each planted bug in a copy of /repo (under /tmp) and runs its property's check on the copy
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=/tmp/rcopy.$$; cp -a /repo $d; git -C $d checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if git -C $d apply "$PWD/seeded/$id/patch.diff"; then
    MC_REPO=$d MC_EVIDENCE=/tmp/rcopy_ev.$$ bash run.sh $p > /tmp/rcopy_out.$$ 2>&1; echo "$id $p exit $? $(grep -m1 VIOLATED /tmp/rcopy_out.$$ | cut -c1-200)"
  else echo "$id DOES NOT APPLY"; fi
  rm -rf $d /tmp/rcopy_ev.$$ /tmp/rcopy_out.$$
done
