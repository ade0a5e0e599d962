#!/usr/bin/env python3
"""regenerates DESIGN.md from tools/design_head.md, design_tail.md, floors.json, known_findings.json and tools/seeds.py"""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(R,'tools'))
from seeds import SEEDS
rd=lambda f: open(os.path.join(R,f)).read()
fl=json.load(open(os.path.join(R,'floors.json'))); kf=json.load(open(os.path.join(R,'known_findings.json')))
d=rd('tools/design_head.md')
for i in range(1,37):
    c='C%02d'%i; f=fl.get(c.lower(),{})
    d=d.replace(f'| {c} | N |',f"| {c} | {len(f)} |")
t=rd('tools/design_tail.md')
t=t.replace('@FINDINGS@','\n'.join('* **%s** `%s`: %s'%(x['property'],', '.join(x['keys']),x['what']) for x in kf['findings']))
t=t.replace('@FIXED@','\n'.join('* '+x for x in kf['fixed']))
have=set(os.listdir(os.path.join(R,'seeded')))
rows=[]
for s in SEEDS:
    if s['id'] in have: rows.append(f"| {s['id']} | {s['prop']} | {s['needs']} | {s['what']} |")
t=t.replace('@SEEDS@','| change | caught by | needs | what it breaks |\n|---|---|---|---|\n'+'\n'.join(rows)).replace('@NSEEDS@',str(len(rows)))
open(os.path.join(R,'DESIGN.md'),'w').write(d+t)
