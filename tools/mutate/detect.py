#!/usr/bin/env python3
"""detect.py DIR [workers] [regex]: runs all rules on the surviving mutants of DIR; DIR/detect.tsv gets name, rule ids or '-'.
Previously undetected mutants are run again; detected ones are kept (delete DIR/detect.tsv to start over)."""
import os,re,subprocess,sys,threading,queue
d=sys.argv[1]; nw=int(sys.argv[2]) if len(sys.argv)>2 else 4
only=re.compile(sys.argv[3]) if len(sys.argv)>3 else None
ck=os.environ.get('CK','/tmp/ck')
done={}
if os.path.exists(d+'/detect.tsv'):
    for l in open(d+'/detect.tsv'):
        a=l.rstrip('\n').split('\t'); done[a[0]]=a
known=set()
if os.path.exists(d+'/equiv.txt'): known=set(l.split()[0] for l in open(d+'/equiv.txt') if l.strip())
q=queue.Queue(); res=dict(done)
for l in open(d+'/survivors.tsv'):
    n,f,ln,desc=l.rstrip('\n').split('\t')
    if only and not only.search(f+':'+ln+' '+desc): continue
    if n in done and done[n][1]!='-' or n in known: continue
    q.put((n,f,ln,desc))
lock=threading.Lock(); cnt_done=[0]
def work():
    while True:
        try: n,f,ln,desc=q.get_nowait()
        except queue.Empty: return
        with lock:
            cnt={}
            for a in res.values():
                if a[3]==f and a[1] not in ('-','timeout') and not a[1].startswith('rc'):
                    for r in a[1].split(','): cnt[r]=cnt.get(r,0)+1
        pref=','.join(sorted(cnt,key=lambda r:-cnt[r]))
        try: p=subprocess.run([ck,'-all','-first','-prefer',pref,'-skip','' if 'operator' in f or 'util/' in f else 'op.','-repo',os.environ.get('REPO','/repo'),'-verif','/verif','-replace',f+'='+os.path.abspath(d+'/'+n)],capture_output=True,text=True,timeout=300)
        except subprocess.TimeoutExpired:
            res[n]=[n,'timeout','',f,ln,desc]; continue
        r=sorted(set(re.findall(r'^FAIL (\S+)',p.stdout,re.M))); u=' undec' if 'undecided=true' in p.stdout and 'undecided=false' not in p.stdout else ''
        if p.returncode not in (0,1): r=['rc%d'%p.returncode]
        with lock:
            res[n]=[n,','.join(r) or '-',u,f,ln,desc]
            cnt_done[0]+=1
            if cnt_done[0]%20==0: save()
def save():
    with open(d+'/detect.tsv','w') as o:
        for n in sorted(res): o.write('\t'.join(res[n])+'\n')
ts=[threading.Thread(target=work) for _ in range(nw)]
[t.start() for t in ts];[t.join() for t in ts]
save()
m=[a for n,a in sorted(res.items()) if a[1]=='-' and n not in known]
print(len(res),'checked',len(m),'undetected')
