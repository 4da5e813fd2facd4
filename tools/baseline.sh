#!/bin/bash
# regenerate baseline.json (which contracts are proved on the unchanged tree): tools/baseline.sh [C06 ...]
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
 rm -f /tmp/base.$p
 /opt/venv/bin/python run.py --property $p --tier quick --baseline > /tmp/base.$p 2>/tmp/base.$p.err; rc=$?
 python3 - $p $rc <<'P'
import json,sys,os
p,rc=sys.argv[1:3]
ls=open('/tmp/base.'+p).read().splitlines()
b=json.load(open('baseline.json')) if os.path.exists('baseline.json') else {}
b[p]=json.loads(ls[0])
json.dump(b,open('baseline.json','w'),indent=0,sort_keys=True)
print(rc,*[l[:200] for l in ls[1:]],sep='\n')
P
done
