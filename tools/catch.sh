#!/bin/bash
# dev tool: catch.sh [ids...]  apply each seeded bug, run its property's check,
# record the outcome in tools/caught.json (read by tools/design.py)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  n=$(echo "$out" | grep -c 'FAILED OBLIGATION')
  echo "$d $p rc=$rc $n failed obligations | $(echo "$out" | grep VIOLATION) | $(echo "$out" | grep 'failing input' | cut -c1-100)"
  OUT="$out" ID=$d RC=$rc python3 - <<'P'
import os,json,re
f='/verif/tools/caught.json'
j=json.load(open(f)) if os.path.exists(f) else {}
o=os.environ['OUT']
ob=re.findall(r'FAILED OBLIGATION (\S+) / ',o)
oor=re.findall(r'^(\S+) .*OUT OF REACH',o,re.M)
t=[]
if ob: t.append('obligations of '+', '.join('`%s`'%u for u in sorted(set(ob))[:4]))
if oor and not ob: t.append('(out of reach: '+', '.join('`%s`'%u for u in sorted(set(oor))[:3])+')')
if 'failing input' in o: t.append('failing input')
j[os.environ['ID']]='; '.join(t) if os.environ['RC']=='1' else 'missed'
json.dump(j,open(f,'w'),indent=1,sort_keys=True)
P
done
