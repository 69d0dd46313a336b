#!/usr/bin/env python3
"""mk.py FILE... [-only ID]: builds and confirms planted bugs defined as BUGS=[dict(id,prop,pkg,edits=[(file,old,new)],demo,needs,breaks)]."""
import sys,os,subprocess,shutil,json,runpy,concurrent.futures as cf,tempfile
BASE=open('/tmp/bugs/base','r').read().strip() if os.path.exists('/tmp/bugs/base') else '3b69134'
ENV=dict(os.environ)
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
overlay=$(mktemp)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$overlay"
go test -buildvcs=false -count=1 %(flags)s-timeout 120s -overlay "$overlay" -run '^TestDemo$' ./%(pkg)s
rc=$?
unlink "$overlay"
exit $rc
'''
def sh(cmd,cwd,timeout=400):
    p=subprocess.run(['bash','-c',cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
def one(b):
    w=tempfile.mkdtemp(prefix='bug-'+b['id']+'-',dir='/tmp')
    try:
        repo=w+'/repo'
        sh('cp -a /repo repo',w)
        d=w+'/d'; os.mkdir(d)
        demo=b['demo']
        if b.get('files'):
            for n,c in b['files'].items(): open(d+'/'+n,'w').write(c)
        if demo is not None:
            open(d+'/demo_test.go','w').write(demo.lstrip('\n'))
            rc,o=sh('gofmt -l demo_test.go',d)
            sh('gofmt -w demo_test.go',d)
            open(d+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'],flags=b.get('flags','')))
        os.chmod(d+'/demo.sh',0o755)
        rc,o=sh(d+'/demo.sh',repo)
        if rc!=0: return b['id'],'demo fails on clean:\n'+o[-1500:]
        origchg=False
        for f,old,new in b['edits']:
            p=repo+'/'+f; s=open(p).read()
            if s.count(old)!=1: return b['id'],'edit matches %d times in %s: %r'%(s.count(old),f,old[:80])
            open(p,'w').write(s.replace(old,new))
        sh(""". /opt/vp/env.sh; for f in $(git diff --name-only); do git show HEAD:$f > /tmp/gf.$$.go; if [ -z "$(gofmt -l /tmp/gf.$$.go)" ]; then gofmt -w $f; else gofmt -w $f; sed -i 's,^//   - ,//  - ,' $f; fi; rm -f /tmp/gf.$$.go; done""",repo)
        rc,diff=sh('git diff',repo)
        open(d+'/patch.diff','w').write(diff)
        # original line touched?
        for f,_,_ in b['edits']:
            rc,orig=sh('git show 3b69134:'+f,'/repo')
            ol=set(l.strip() for l in orig.splitlines())
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() in ol and len(l.strip())>4 and not l[1:].strip().startswith('//'): origchg=True
        rc,o=sh('. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; go build -buildvcs=false ./... && go vet -buildvcs=false ./... ; go test -buildvcs=false -count=1 ./...',repo)
        if rc!=0: return b['id'],'build/tests fail:\n'+o[-2500:]
        rc,o=sh(d+'/demo.sh',repo)
        if rc==0: return b['id'],'demo passes with bug'
        if 'build failed' in o or 'setup failed' in o: return b['id'],'demo build failed '+o[-1500:]
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        dst=os.environ.get('DST','/verif/seeded')+'/'+b['id']
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(d,dst)
        return b['id'],'OK' + ('' if origchg else ' (WARNING: no original line changed)')+' '+[l for l in o.splitlines() if l.strip()][0][:150]
    except Exception as e:
        return b['id'],'EXC %r'%e
    finally:
        shutil.rmtree(w,ignore_errors=True)
bugs=[];only=None;args=sys.argv[1:]
if '-only' in args:
    i=args.index('-only'); only=args[i+1].split(','); del args[i:i+2]
for f in args: bugs+=runpy.run_path(f)['BUGS']
if only: bugs=[b for b in bugs if b['id'] in only]
ids=[b['id'] for b in bugs]; assert len(set(ids))==len(ids)
with cf.ThreadPoolExecutor(6) as ex:
    for i,r in ex.map(one,bugs): print(i,r,flush=True)
