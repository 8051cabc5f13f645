#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the two tables below."""
import json,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(d+'/properties.jsonl')]
tab=json.load(open(d+'/tools/claims.json'))
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[],"notes":"All checks are static: they load and type-check /repo's current source, build its SSA form and decide the property on it; nothing of /repo is executed."}
for p in props:
    i=p['id']
    if i in tab['claims']:
        c=tab['claims'][i]
        m['checks'].append({"property":i,"quick_cmd":f"bash ./check.sh {i} quick","thorough_cmd":f"bash ./check.sh {i} thorough","technique":c['technique'],"level":"other","level_note":c['note']})
    else:
        m['not_applicable'].append({"property":i,"reason":tab['na'].get(i,"check not built yet")})
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1,ensure_ascii=False);open(d+'/MANIFEST.json','a').write('\n')
