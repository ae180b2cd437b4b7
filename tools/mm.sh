#!/bin/bash
# mm.sh SPEC: runs all rules on hand-written changes. SPEC: changes separated by ====, the edits of one change by ++++;
# an edit is the file's path relative to the repository, the old text, ---, the new text. A line "# ..." first names the change.
python3 - "$@" <<'P'
import sys,subprocess,os,re,shutil,tempfile
spec=open(sys.argv[1]).read().strip('\n').split('\n====\n')
only=sys.argv[2:] 
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('REPO','/repo')
def run(i):
    b=spec[i]; name=str(i)
    if b.startswith('# '): l,b=b.split('\n',1); name+=' '+l[2:]
    if only and not any(o in name for o in only): return None
    d=tempfile.mkdtemp(); srcs={}
    for e in b.split('\n++++\n'):
        f,rest=e.split('\n',1); old,new=rest.split('\n---\n') if '\n---\n' in rest else (rest.split('\n---')[0],'')
        s=srcs.get(f) or open(REPO+'/'+f).read()
        if not s: return f
        if s.count(old)!=1: return f'{name}: OLD OCCURS {s.count(old)} times {old[:60]!r}'
        srcs[f]=s.replace(old,new)
    for f,s in srcs.items(): open(d+'/'+f.replace('/','__'),'w').write(s)
    o=subprocess.run([os.environ.get('CK','/tmp/ck'),'-all','-repo',REPO,'-verif','/verif','-replace',d],capture_output=True,text=True)
    shutil.rmtree(d)
    fs=[l for l in o.stdout.split('\n') if l.startswith('FAIL')]
    return f'{name}: '+(' | '.join(l[5:170] for l in fs[:2]) or ('MISSED' if o.returncode==0 else 'rc%d %s'%(o.returncode,(o.stdout+o.stderr)[-300:])))
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run,range(len(spec))):
        if r: print(r,flush=True)
P
