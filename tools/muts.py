#!/usr/bin/env python3
"""muts.py FILE.py [-s SCEN] [-k NAME] [-j N]: apply each mutation of FILE.py (M = list of
(name, file, old, new[, file, old, new...])) to a scratch copy of /repo, build it and print what the
checker reports. Names that start with "ok" must stay silent; all others must be caught."""
import sys,os,subprocess,shutil,tempfile,argparse,concurrent.futures as cf
ap=argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('-s',default=''); ap.add_argument('-k',default=''); ap.add_argument('-j',type=int,default=3); ap.add_argument('-n',type=int,default=3)
a=ap.parse_args()
ns={}; exec(open(a.spec).read(),ns); M=ns['M']
env=dict(os.environ)
def one(m):
    name=m[0]; d=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
    try:
        r=d+'/repo'; shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git'))
        for i in range(1,len(m),3):
            p=r+'/'+m[i]; s=open(p).read()
            if m[i+1] not in s: return name,'NOTFOUND',[m[i+1][:80]]
            open(p,'w').write(s.replace(m[i+1],m[i+2],1))
        b=subprocess.run('. /opt/vp/env.sh; go build ./... && go vet . ./executor/... ./eventbus/... ./lock/... ./d_timer/... 2>&1 | grep -E "declared and not used|imported and not used|undefined" ',shell=True,cwd=r,capture_output=True,text=True,executable='/bin/bash')
        if 'rror' in b.stderr or '.go:' in b.stderr: return name,'NOBUILD',b.stderr.strip().split('\n')[:3]
        c=subprocess.run([os.environ.get('CHK','/tmp/chk'),'-q','-repo',r]+(['-scen',a.s] if a.s else []),capture_output=True,text=True)
        L=[l.strip() for l in c.stdout.split('\n') if any(k in l for k in ('VIOL','TAINTED','!!','more than','limit'))]
        if c.returncode not in (0,): L.append('rc=%d %s'%(c.returncode,c.stdout[-300:]+c.stderr[-300:]))
        v=any('VIOL' in l for l in L)
        ok=name.startswith('ok')
        st='caught' if v and not ok else 'quiet' if not v and ok else 'MISSED' if not ok else 'FALSEALARM'
        return name,st,sorted(set(L))
    finally: shutil.rmtree(d)
sel=[m for m in M if a.k in m[0]]
with cf.ThreadPoolExecutor(a.j) as ex:
    for name,st,L in ex.map(one,sel):
        print('%-10s %s'%(st,name),flush=True)
        for l in L[:a.n]: print('      ',l[:230])
