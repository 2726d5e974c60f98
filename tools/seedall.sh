#!/bin/bash
# run each planted bug's demonstration and its check (on /repo, restored afterwards) and note which check catches it
cd /verif
for d in seeded/*/; do id=$(basename $d); seedtry $id 2>&1; done | tee /tmp/seedall.log
python3 - <<'P'
import json,re
r={}
for l in open('/tmp/seedall.log'):
    m=re.match(r'(\S+) check (\S+) rc=(\d+) (\d+)',l)
    if m: r[m[1]]='Caught by %s.'%m[2] if m[3]=='1' else 'NOT caught (%s).'%m[2]
json.dump(r,open('/verif/tools/caught.json','w'),indent=1)
P
python3 tools/design.py
