#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, properties.jsonl, explain.txt, claims.json and the seeded bugs."""
import json,glob,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(d+'/properties.jsonl')]
ex=dict(l.rstrip('\n').split(': ',1) for l in open(d+'/checker/explain.txt') if ': ' in l)
cl=json.load(open(d+'/tools/claims.json'))
per=[]

for p in props:
    i=p['id']
    per.append(f"### {i} — {p['title']}\n")
    if i in cl['claims']:
        per.append(ex.get(i,'')+"\n")
        w=p.get('why_tests_cant','')
        if w: per.append(f"Why tests cannot settle it: {w}\n")
    else:
        per.append("Not applicable: "+cl['na'].get(i,'check not built yet')+"\n")
cat={}
f=d+'/tools/caught.json'
if os.path.exists(f): cat=json.load(open(f))
rows=[]
for m in sorted(glob.glob(d+'/seeded/*/meta.json')):
    n=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append(f"| {n} | {j['property']} | {j['needs'].replace('|','/')} | {cat.get(n,'')} |")
s=open(d+'/tools/design.md').read()
s=s.replace('@@PROPERTIES@@','\n'.join(per)).replace('@@SEEDED@@','\n'.join(['| bug | property | needs | caught by |','|---|---|---|---|']+rows))
open(d+'/DESIGN.md','w').write(s)
