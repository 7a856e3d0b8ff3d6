#!/bin/bash
# fixed.sh PROP 'what failed'  -- records the latest commit of /repo as the repair
export VD=$(cd "$(dirname "$0")/.."; pwd)
python3 - "$1" "$2" "$(git -C ${VP_REPO:-/repo} log -1 --format=%h ${3:-HEAD})" <<'P'
import json,sys
f=__import__('os').environ['VD']+'/known_findings.json'; d=json.load(open(f))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[3]} {sys.argv[2]}')
json.dump(d,open(f,'w'),indent=1)
P
