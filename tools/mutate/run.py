import json,subprocess,os,sys,threading,queue,shutil,random,time
W=int(sys.argv[1]); OUT=sys.argv[2]; sel=sys.argv[3:] 
muts=json.load(open('/tmp/mut/muts.json'))
done=set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)['id'])
H='/tmp/mut/harness'
ALL="C01 C02 C03 C04 C05 C06 C07 W01 W02 W03 W04 W05 W06 W07 W08 W09 A01 A02 P01 P02 T01 T02 T03 T04 T05 T06 S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 L01 L02 G01 G02 E01".split()
def props(f):
    f=f[6:]
    if f.startswith('beserial'): first="C04 C01 C02 C03 C05 C06 C07 W01 W03"
    elif f.startswith('address'): first="A01 A02"
    elif f.startswith('accounts'): first="S03 S07 S06 S01 S02 S08 S11 S12 S09 S10 S13 S04 S05 G01 S14"
    elif f.startswith('tree'): first="T01 T03 T02 T05 T04 T06 S02"
    elif f.startswith('policy'): first="P01 P02"
    elif f.startswith('genesis'): first="G01 G02"
    elif f.startswith('cmd'): first="E01"
    elif f.startswith('wallet'): first="L01 L02"
    elif f.startswith('wire/account') or f.startswith('wire/tx'): first="W01 S03 S05 S04 S10 S09 W09 W02 L01 W03 S06 C03 C07 W10 W11 S14"
    elif f.startswith('wire/nibbles'): first="T06"
    elif f.startswith('wire/utils') or f.startswith('wire/hash'): first="W07 W01 W05 W06 W02"
    else: first="W01 W04 W10 W02 W03 W05 W06 W08 W09 C07 C03"
    first=first.split()
    return first
q=queue.Queue()
ids=[i for i in range(len(muts)) if i not in done and (not sel or any(muts[i]['file'][6:].startswith(s) for s in sel))]
random.seed(5); random.shuffle(ids)
for i in ids: q.put(i)
lock=threading.Lock(); out=open(OUT,'a')
base=dict(os.environ)
base.update(GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOWORK='off',GOPROXY='off',GOFLAGS='-mod=readonly',HOME='/root',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',PATH='/opt/veriftools/go1.27.3/bin:/usr/bin:/bin')
def work(k):
    d='/tmp/mut/w%d'%k; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/cwd')
    cache=d+'/cache'; n=0
    shutil.copytree('/tmp/mut/cache0',cache)
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        m=muts[i]; n+=1
        if n%120==0:
            shutil.rmtree(cache); shutil.copytree('/tmp/mut/cache0',cache)
        env=dict(base,GOCACHE=cache,GOMAXPROCS='1',GOTMPDIR=d)
        m=dict(m,file='/tmp/mut'+m['file']); src=open(m['file'],'rb').read()
        new=src[:m['off']]+m['new'].encode()+src[m['end']:]
        open(d+'/m.go','wb').write(new)
        json.dump({"Replace":{m['file']:d+'/m.go'}},open(d+'/ov.json','w'))
        r={'id':i,'file':m['file'].split('/repo/')[1],'line':m['line'],'op':m['op'],'old':m['old'],'new':m['new']}
        if src==new or m['op']=='str': continue
        p=subprocess.run(['go','build','-buildvcs=false','-overlay',d+'/ov.json','-o',d+'/vmon','.'],cwd=H,env=env,capture_output=True,text=True)
        ok=p.returncode==0
        if ok and False:
            pass
        ps=props('/repo/'+r['file'])
        if ok and ('E01' in ps):
            p=subprocess.run(['go','build','-buildvcs=false','-overlay',d+'/ov.json','-o',d+'/gimiq','./cmd/gimiq'],cwd='/tmp/mut/repo',env=env,capture_output=True,text=True)
            ok=p.returncode==0
        if not ok: r['res']='nobuild'
        else:
            r['res']='SURVIVED'; r['notes']=[]
            env['VMON_GIMIQ']=d+'/gimiq'
            env['TMPDIR']=d
            for pr in ps:
                try:
                    p=subprocess.run([d+'/vmon','-prop',pr,'-seed','1','-div','4','-known','/verif/known_findings.txt'],cwd=d+'/cwd',env=env,capture_output=True,timeout=300)
                except subprocess.TimeoutExpired:
                    r['res']='timeout '+pr; break
                o=p.stdout.decode(errors='replace')
                if p.returncode!=0 or 'VIOLATION' in o: r['res']='killed '+pr; break
                if 'INCONCLUSIVE' in o: r['notes'].append(pr+' inconclusive '+o[o.index('INCONCLUSIVE'):][:200])
            for x in os.listdir(d):
                if x not in('cwd','cache','vmon','gimiq','m.go','ov.json'):
                    pth=d+'/'+x
                    shutil.rmtree(pth,ignore_errors=True) if os.path.isdir(pth) else os.remove(pth)
        with lock:
            out.write(json.dumps(r)+'\n'); out.flush()
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done')
