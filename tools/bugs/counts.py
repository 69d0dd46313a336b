import subprocess,glob,re,os,sys
cache={}
def blame(f):
    if f not in cache:
        o=subprocess.run(['git','-C','/repo','blame','-s','--line-porcelain','3b69134..HEAD','--',f],capture_output=True,text=True).stdout
        res=[];cur=None;b=False
        for l in o.splitlines():
            m=re.match(r'^([0-9a-f]{40}) \d+ (\d+)',l)
            if m: b=False
            elif l=='boundary': b=True
            elif l.startswith('\t'): res.append((b,l[1:]))
        cache[f]=res
    return cache[f]
dirs=sys.argv[1:] or sorted(glob.glob('/verif/seeded/*'))
for d in dirs:
    ok=False;f=None
    for l in open(d+'/patch.diff'):
        l=l.rstrip('\n')
        if l.startswith('--- '): f=l[6:];continue
        if l.startswith('+++ '):continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1));continue
        if f is None: continue
        if l.startswith('-'):
            b,t=blame(f)[n-1]
            s=t.strip()
            if b and s and not s.startswith('//'): 
                # whitespace only?
                ok=True
            n+=1
        elif l.startswith(' '): n+=1
    if not ok: print('NOCOUNT',os.path.basename(d))
