#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec with ID, PROPERTY, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO (go test source), KIT (demo kit files), optionally PKG."""
import sys,os,subprocess,json,shutil,tempfile
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns={}
    exec(open(spec).read(),ns)
    for S in ns['SEEDS']:
        d=f"{v}/seeded/{S['id']}"
        os.makedirs(d,exist_ok=True)
        t=tempfile.mkdtemp()
        subprocess.check_call(['git','clone','-q','/repo',t+'/r'])
        for f,o,n in S['edits']:
            p=t+'/r/'+f; s=open(p).read()
            if s.count(o)!=1: sys.exit(f"{S['id']}: {f}: {s.count(o)} matches of {o!r}")
            open(p,'w').write(s.replace(o,n))
        subprocess.call(['gofmt','-w']+[t+'/r/'+f for f,_,_ in S['edits']])
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',t+'/r','diff'],text=True))
        # only lines of the original repository may be changed
        import re
        base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()[0]
        for f,_,_ in S['edits']:
            bl=subprocess.check_output(['git','-C','/repo','blame','-s','-l','--root','HEAD','--',f],text=True).split('\n')
            df=subprocess.check_output(['git','-C',t+'/r','diff','-U0','--',f],text=True)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',df,re.M):
                a,n=int(m[1]),int(m[2] or 1)
                for i in (range(a,a+n) if n else [a]):
                    if not bl[i-1].lstrip('^').startswith(base[:20]): print(f"  {S['id']}: {f}:{i} is not an original line: {bl[i-1][40:]}")
        shutil.rmtree(t)
        json.dump({"property":S['property'],"needs":S['needs'],"what_it_breaks":S['breaks']},open(d+'/meta.json','w'),indent=1)
        kit=S.get('kit','demokit')
        for f in os.listdir(f'{v}/tools/{kit}'):
            t=open(f'{v}/tools/{kit}/{f}').read().replace('PKGNAME',S.get('name','mysql'))
            open(d+'/'+f,'w').write(t)
            if f=='demo.sh': os.chmod(d+'/'+f,0o755)
        if 'pkg' in S: open(d+'/pkg','w').write(S['pkg']+'\n')
        open(d+'/demo_test.go','w').write(S['demo'])
