#!/usr/bin/env python3
"""seed.py SPEC.py: writes /verif/seeded/<id>/ from a planted-bug description and confirms it in a scratch copy.
SPEC defines: id, prop, edits=[(file, old, new[, count])], needs, breaks, pkg, test (Go source of an in-package or external test
whose functions are TestDemo*), and optionally stubs=True when the package needs the stub modules (those the pinned build leaves out).
Options: -nockeck skips nothing; environment SKIP_TESTS=1 skips the repository's own tests."""
import os,subprocess,sys,json,shutil
spec={}; exec(open(sys.argv[1]).read(),spec)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D=V+'/seeded/'+spec['id']
W='/tmp/seedwt'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
shutil.rmtree(W,ignore_errors=True); sh('cp -a /repo '+W)
for e in spec['edits']:
    p=W+'/'+e[0]; s=open(p).read(); n=s.count(e[1])
    assert n==(e[3] if len(e)>3 else 1),(e[0],e[1],'occurs',n)
    open(p,'w').write(s.replace(e[1],e[2]))
shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
diff=sh('git diff',cwd=W).stdout; assert diff
open(D+'/patch.diff','w').write(diff)
json.dump({'property':spec['prop'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(D+'/meta.json','w'),indent=1)
open(D+'/zz_demo_test.go','w').write(spec['test'])
ENV='export GOROOT=/opt/veriftools/go1.24.13 HOME=/root GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOFLAGS= GOPATH=/root/go GOEXPERIMENT=synctest CGO_ENABLED=0\nexport PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin\n'
head='#!/bin/bash\n# Runs the demonstration test inside '+spec['pkg']+' through a build overlay; all its files live in scratch directories.\nset -e\nD=$(cd "$(dirname "$0")" && pwd); R=$(pwd -P)\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\n'+ENV
if spec.get('stubs'):
    shutil.copytree(V+'/stubs',D+'/stubs')
    mid='bash "$D/stubs/overlay.sh" "$R" "$T"\n'
else:
    mid='cp go.mod go.sum "$T/"\ngo mod edit -droprequire=reduction.dev/reduction-go -droprequire=reduction.dev/reduction-protocol "$T/go.mod"\necho \'{"Replace": {}}\' > "$T/overlay.json"\n'
tail='''python3 - "$T/overlay.json" "$R/PKG/zz_demo_test.go" "$D/zz_demo_test.go" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); d["Replace"][sys.argv[2]]=sys.argv[3]; json.dump(d,open(sys.argv[1],'w'))
P
export TMPDIR="$T"
go test -vet=off -count=1 -timeout 200s -modfile="$T/go.mod" -overlay="$T/overlay.json" -run '^TestDemo' ./PKG
'''.replace('PKG',spec['pkg'])
open(D+'/demo.sh','w').write(head+mid+tail); os.chmod(D+'/demo.sh',0o755)
ok=True
L='/tmp/seedlaid'; shutil.rmtree(L,ignore_errors=True); shutil.copytree(D,L)
for f in ('patch.diff','meta.json'): os.remove(L+'/'+f)
for i in range(2):
    r=sh('bash '+L+'/demo.sh',cwd='/repo')
    if r.returncode: ok=False; print('DEMO FAILS on the unchanged tree\n',(r.stdout+r.stderr)[-900:])
r=sh('bash '+L+'/demo.sh',cwd=W)
if r.returncode==0: ok=False; print('DEMO PASSES with the patch')
elif 'TestDemo' not in r.stdout: ok=False; print('DEMO does not run\n',(r.stdout+r.stderr)[-900:])
else: print('demo with patch:',[l for l in r.stdout.split('\n') if 'FAIL' in l or 'demo' in l.lower() or 'want' in l.lower()][:4])
if not os.environ.get('SKIP_TESTS'):
    r=sh('git -C /repo apply --check %s/patch.diff && git -C /repo apply %s/patch.diff'%(D,D))
    try:
        r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json')
        o=json.load(open('/tmp/seed_o.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        st=set(base.get('stable') or base.get('passed') or [])
        bad=[t for t in st if t not in set(o.get('passed',[]))]
        if bad or not st: ok=False; print('stable tests broken:',bad[:5],len(st),list(base)[:8],list(o)[:5])
        if spec.get('stubs') or os.environ.get('EXT'):
            r=sh('bash '+V+'/findings/exttests.sh'); f=[l for l in (r.stdout+r.stderr).split('\n') if l.startswith('--- FAIL') or 'build failed' in l]; print('offline-compilable tests:',f)
    finally: sh('git -C /repo checkout -- .')
r=sh('/tmp/ck -all -repo %s -verif %s'%(W,V)); print('checks:',[l[:200] for l in r.stdout.split('\n') if l.startswith('FAIL')][:6],[l[:150] for l in r.stdout.split('\n') if l.startswith('SOFT')][:6])
r=sh('REPO=%s /verif/check.sh %s'%(W,spec['prop'])); print('CAUGHT' if r.returncode==1 and 'VIOLATION property='+spec['prop'] in r.stdout else 'MISSED',r.returncode)
shutil.rmtree(W,ignore_errors=True)
print('OK' if ok else 'NOT OK',spec['id'])
