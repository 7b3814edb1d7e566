#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from claims.py and properties.jsonl
import json
ROOT='/verif'
ns={}
exec(open(ROOT+'/tools/claims.py').read(), ns)
CL=ns['CLAIMS']; NA=ns['NA']
ids=[json.loads(l)['id'] for l in open(ROOT+'/properties.jsonl')]
checks=[]; na=[]
for i in ids:
    if i in CL:
        lv,tech,note=CL[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', evidence_file=f'evidence/{i}.json', technique=tech, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i,'no check built yet')))
m=dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='No hooks in /repo: contracts live in /verif/specs and are bound to the functions by name; test code enters through go test -overlay.')
json.dump(m, open(ROOT+'/MANIFEST.json','w'), indent=1); open(ROOT+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
