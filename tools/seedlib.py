"""Writes seeded/<id>/ from a description and verifies it.

SEED_REPO and SEED_VERIF name other clones to work in."""
import os,subprocess,json,sys,re
REPO=os.environ.get('SEED_REPO','/repo')
VERIF=os.environ.get('SEED_VERIF','/verif')
BASE='e9517c7'
DEMO='''#!/bin/bash
# exit 0: behaves as promised; run in /repo after it is built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local timeout 200 go test -vet=off -overlay "$t/o.json" -run 'TestDemo$' -count=1 ./%(pkg)s
'''
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,env=ENV,**k)
def clean(): sh(f'git -C {REPO} checkout -- .')
def passed():
    p=set()
    for l in sh('ulimit -v 12000000; go test -json -vet=off -count=1 -timeout 120s ./...',cwd=REPO).stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and d.get('Test'): p.add(d['Package']+'::'+d['Test'])
    return p
_base=None
def base():
    global _base
    if _base is None: _base=passed()
    return _base
def original(diff):
    """every removed line comes from the first commit"""
    bad=[];f=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]; continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if f is None or l[:1] in('+','\\') : continue
        if l.startswith('-'):
            if not sh(f'git -C {REPO} blame -s --root -L {n},{n} HEAD -- {f}').stdout.startswith(BASE): bad.append(l)
        n+=1
    return bad
def make(id,prop,file,edits,pkg,needs,breaks,test):
    d=f'{VERIF}/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip(),'repo dirty'
    base()
    files=edits if isinstance(edits,dict) else {file:edits}
    try:
        for f,es in files.items():
            s=open(f'{REPO}/{f}').read()
            for o,n in es:
                assert s.count(o)>=1,(id,'old text not found',o)
                if s.count(o)>1: print(id,'warning: old text occurs',s.count(o),'times; first replaced')
                s=s.replace(o,n,1)
            open(f'{REPO}/{f}','w').write(s)
        diff=sh(f'git -C {REPO} diff').stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write(test.lstrip('\n'))
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        lost=base()-passed()
        r=sh(f'bash {d}/demo.sh',cwd=REPO)
        ok1=r.returncode!=0; o1=r.stdout+r.stderr
    finally: clean()
    late=original(diff)
    r=sh(f'bash {d}/demo.sh',cwd=REPO)
    ok2=r.returncode==0
    good=ok1 and ok2 and not lost and not late and 'build failed' not in o1 and 'setup failed' not in o1
    print(id,'OK' if good else 'BAD','lost tests:',sorted(lost)[:3],'demo patched fails:',ok1,'demo clean passes:',ok2,'not original:',late,flush=True)
    if not good and (not ok1 or not ok2 or 'failed' in o1): print(o1[-800:]); print((r.stdout+r.stderr)[-800:])
    return good
def want(id): return len(sys.argv)<2 or id in sys.argv[1:]
