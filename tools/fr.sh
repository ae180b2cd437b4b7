#!/bin/bash
# fr.sh SPEC [name substring...]: run all rules on hand-written variants (see fr/main.go). TEST=1 also runs the package tests.
(cd "$(dirname "$0")/fr" && go build -o /tmp/frbin .) || exit 2
python3 - "$@" <<'P'
import sys,subprocess,os,shutil,tempfile
spec=open(sys.argv[1]).read().strip('\n').split('\n====\n'); only=sys.argv[2:]
REPO=os.environ.get('REPO','/repo'); CK=os.environ.get('CK','/tmp/ck')
from concurrent.futures import ThreadPoolExecutor
def run(b):
    name=b.split('\n')[0][2:]
    if only and not any(o in name for o in only): return
    d=tempfile.mkdtemp()
    p=subprocess.run(['/tmp/frbin',d,REPO,sys.argv[1],name],capture_output=True,text=True)
    if p.returncode: return name+': '+(p.stdout+p.stderr)[-300:]
    t=''
    if os.environ.get('TEST'):
        import json
        json.dump({'Replace':{REPO+'/'+f.replace('__','/'):d+'/'+f for f in os.listdir(d)}},open(d+'.json','w'))
        env=dict(os.environ,GOROOT='/opt/veriftools/go1.24.13',GOEXPERIMENT='synctest',CGO_ENABLED='0',GOFLAGS='-mod=mod',GOTOOLCHAIN='local')
        pk=sorted({'./'+os.path.dirname(f.replace('__','/')) for f in os.listdir(d)}|{'./dkv/...'})
        q=subprocess.run(['/opt/veriftools/go1.24.13/bin/go','test','-overlay',d+'.json']+pk,cwd=REPO,env=env,capture_output=True,text=True)
        if q.returncode: t=' TESTS FAIL '+(q.stdout+q.stderr)[-400:]
    o=subprocess.run([CK,'-all','-repo',REPO,'-verif','/verif','-replace',d],capture_output=True,text=True)
    shutil.rmtree(d)
    fs=[l for l in o.stdout.split('\n') if l.startswith('FAIL')]
    so=[l for l in o.stdout.split('\n') if l.startswith('SOFT')]
    return name+': '+(' | '.join(l[5:200] for l in fs[:3]) or ('quiet' if o.returncode==0 else 'rc%d %s'%(o.returncode,(o.stdout+o.stderr)[-300:])))+(' softs: '+' | '.join(l[:120] for l in so[:3]) if so else '')+t
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run,spec):
        if r: print(r,flush=True)
P
