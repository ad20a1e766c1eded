#!/bin/bash
# for each fix commit: revert alone in a copy, run its property's check, report
rm -rf /tmp/rv; mkdir /tmp/rv; cp -a /repo /tmp/rv/repo; cd /tmp/rv/repo
/usr/bin/python3 - <<'P' > /tmp/rv/list
import json,subprocess
d=json.load(open('/verif/tools/fixes.json'))
out=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
for l in out:
    h,s=l.split(' ',1)
    if s in d: print(h,','.join(d[s]))
P
while read h ps; do
  git reset -q --hard HEAD >/dev/null; git -C . checkout -q master 2>/dev/null
  if ! git revert -n $h >/dev/null 2>&1; then git revert --abort 2>/dev/null; git reset -q --hard; echo "CONFLICT $h $ps"; continue; fi
  r=""
  for p in ${ps//,/ }; do
    (cd /verif && MC_REPO=/tmp/rv/repo MC_EVIDENCE=/tmp/rv/ev MC_JOBS=4 timeout 600 bash run.sh $p > /tmp/rv/log 2>&1); r="$r $p:$?"
  done
  echo "$h$r $(git -C /repo log -1 --format=%s $h)"
  git reset -q --hard
done < /tmp/rv/list
