#!/usr/bin/env python3
"""survive.py DIR [workers]: keeps the mutants of DIR (made by mutate) that compile and pass the tests of the
packages buildable offline. Appends to DIR/survivors.tsv; resumable through DIR/done.txt."""
import json,os,subprocess,sys,threading,queue,re
d=sys.argv[1]; nw=int(sys.argv[2]) if len(sys.argv)>2 else 5
verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ov='/tmp/mut_ov'; os.makedirs(ov,exist_ok=True)
subprocess.check_call(['bash',verif+'/stubs/overlay.sh','/repo',ov])
base=json.load(open(ov+'/overlay.json'))['Replace']
groot='/opt/veriftools/go1.24.13'
env=dict(os.environ,GOROOT=groot,PATH=groot+'/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOFLAGS='',GOPROXY='off',GOSUMDB='off',GOEXPERIMENT='synctest',CGO_ENABLED='0',GOCACHE='/tmp/mut_gc',GOMAXPROCS='4')
deps={'dkv':['./dkv/...'],'util':['./util/...','./dkv/...'],'batching':['./batching'],'clocks':['./clocks','./batching'],'storage':['./storage/locations','./storage/objstore','./dkv/storage','./dkv'],'wmark':['./wmark']}
done=set(l.split()[0] for l in open(d+'/done.txt')) if os.path.exists(d+'/done.txt') else set()
jobs=queue.Queue()
only=re.compile(sys.argv[3]) if len(sys.argv)>3 else None
for l in open(d+'/index.tsv'):
    n,f,ln,desc=l.rstrip('\n').split('\t')
    if n in done or only and not only.search(f): continue
    jobs.put((n,f,ln,desc))
lock=threading.Lock()
df=open(d+'/done.txt','a',1); sf=open(d+'/survivors.tsv','a',1)
def test(args,ovf,t):
    try:
        return subprocess.run(['timeout','-k','2',str(t),'go','test','-vet=off','-timeout',str(t-5)+'s','-modfile='+ov+'/go.mod','-overlay='+ovf]+args,cwd='/repo',env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL).returncode
    except Exception: return 1
def work(k):
    while True:
        try: n,f,ln,desc=jobs.get_nowait()
        except queue.Empty: return
        r=dict(base); r[f]=os.path.abspath(d+'/'+n)
        ovf=f'{ov}/o{k}.json'; json.dump({'Replace':r},open(ovf,'w'))
        rel=os.path.relpath(os.path.dirname(f),'/repo')
        rc=test(['./'+rel],ovf,40)
        if rc==0:
            rc=test(deps.get(rel.split('/')[0],['./'+rel]),ovf,90)
        with lock:
            df.write(f'{n} {rc}\n')
            if rc==0: sf.write(f'{n}\t{f}\t{ln}\t{desc}\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(nw)]
[t.start() for t in ts];[t.join() for t in ts]
