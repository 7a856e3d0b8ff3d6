#!/bin/bash
# catch.sh [ID...]: which planted bugs does the quick check of their property catch?  Records into tools/caught.json.
cd "$(dirname "$0")/.."; R=${VP_REPO:-/repo}
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C $R apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$SECONDS; ./run.py $p --tier quick > /tmp/catch.out.$$ 2>&1; rc=$?
  git -C $R checkout -q -- .
  echo "$i $p rc=$rc $((SECONDS-s))s $(grep -c ^VIOLATION /tmp/catch.out.$$) violations; $(grep -m1 -B1 ^VIOLATION /tmp/catch.out.$$ | head -1 | cut -c1-150)"
  python3 - $i $p $rc /tmp/catch.out.$$ <<'P'
import json,sys,re,os
i,p,rc,f=sys.argv[1:]; t=open(f).read()
d=json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
es=sorted(set(re.findall(r"vpx_(\w+):",t))) if rc=="1" else []
d[i]=f"{p}: "+", ".join(es[:4])+(" ..." if len(es)>4 else "") if rc=="1" else "missed" if rc=="0" else "no answer"
json.dump(d,open("tools/caught.json","w"),indent=0,sort_keys=True)
P
done
