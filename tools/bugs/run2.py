#!/usr/bin/env python3
"""run2.py [-j N] [-seed S] DIR...: run each bug (dir with patch.diff, meta.json) against its property's check in scratch copies."""
import sys,os,subprocess,json,tempfile,shutil,concurrent.futures as cf,re,time
args=sys.argv[1:];J=4;SEED='1';PROP=None;TIER='quick'
while args and args[0].startswith('-'):
    k=args.pop(0);v=args.pop(0)
    if k=='-j':J=int(v)
    if k=='-seed':SEED=v
    if k=='-prop':PROP=v
    if k=='-tier':TIER=v
def one(d):
    d=d.rstrip('/');name=os.path.basename(d)
    prop=PROP or json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='bt-',dir='/tmp')
    try:
        subprocess.run(['cp','-a','/repo',w+'/repo'],check=True)
        p=subprocess.run(['git','apply',os.path.abspath(d+'/patch.diff')],cwd=w+'/repo',capture_output=True,text=True)
        if p.returncode: return name+' APPLY '+p.stderr[:300]
        os.mkdir(w+'/verif')
        subprocess.run('cp -a /verif/harness /verif/check.py /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json %s/verif/ && mkdir %s/verif/evidence'%(w,w),shell=True,check=True)
        s=open(w+'/verif/check.py').read().replace('REPO = "/repo"','REPO = "%s/repo"'%w);open(w+'/verif/check.py','w').write(s)
        s=open(w+'/verif/harness/go.mod').read();assert '=> /repo' in s;open(w+'/verif/harness/go.mod','w').write(s.replace('=> /repo','=> %s/repo'%w))
        out=[]
        for q in prop.split(','):
            t=time.time()
            p=subprocess.run(['python3','check.py',q,'--tier',TIER,'--seed',SEED],cwd=w+'/verif',capture_output=True,text=True)
            l=[x for x in (p.stdout+p.stderr).splitlines() if not x.startswith('KNOWN')]
            out.append('%s %s rc=%d %ds %s'%(name,q,p.returncode,time.time()-t,l[0][:150] if l else ''))
        return '\n'.join(out)
    finally: shutil.rmtree(w,ignore_errors=True)
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(one,args): print(r,flush=True)
