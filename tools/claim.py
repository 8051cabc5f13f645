#!/usr/bin/env python3
"""claim.py ID... : claim properties, then regenerate the manifest."""
import json,sys,os,subprocess
d=os.path.dirname(os.path.abspath(__file__))
t=json.load(open(d+'/claims.json'))
for i in sys.argv[1:]:
    t['claims'][i]=dict(t['claims']['C01'])
    t['na'].pop(i,None)
t['claims']=dict(sorted(t['claims'].items()))
json.dump(t,open(d+'/claims.json','w'),indent=1,ensure_ascii=False)
subprocess.check_call(['python3',d+'/mkmanifest.py'])
