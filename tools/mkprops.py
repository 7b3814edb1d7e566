#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the file stays readable)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        **({"observe_at":observe} if observe else {}),hook_needed=hook)))
exec(open(__file__.replace('mkprops.py','props_table.py')).read())
assert len({x['id'] for x in P})==len(P)
for x in P: assert len(x['title'])<=80,x['title']
open(__file__.replace('tools/mkprops.py','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),'properties')
