#!/usr/bin/env python3
"""mkseed.py [-n] FILE... [-o ID]: writes /verif/seeded/<ID>/ from seed specs and verifies each in a scratch copy
(demo passes unpatched; patch builds, passes the stable tests, demo fails)."""
import sys,os,re,json,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__)); out=os.path.join(here,'..','seeded')
DEMO='''#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
{ echo '{"Replace": {'; sep=''
for f in "$here"/*_verif_test.go; do echo "$sep\\"$repo/%s/$(basename "$f")\\": \\"$f\\""; sep=','; done
echo '}}'; } > "$tmp/o.json"
timeout 250 go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 200s -run 'TestSeed' %s./%s
'''
def parse(fn):
    cur=None; st=None; res=[]
    for l in open(fn).read().split('\n'):
        if l.startswith('== '):
            f=[x.strip() for x in l[3:].split('|')]
            cur=dict(id=f[0],prop=f[1],needs=f[2],breaks=f[3],pkg='.',edits=[],test='',flags=''); res.append(cur); st=None
        elif cur is None: continue
        elif st is None and l.startswith('pkg: '): cur['pkg']=l[5:].strip()
        elif st is None and l.startswith('flags: '): cur['flags']=l[7:].strip()+' '
        elif st is None and l.startswith('@ '): cur['file']=l[2:].strip()
        elif st is None and l=='<<<<': st='old'; old=[]; new=[]
        elif st=='old' and l=='====': st='new'
        elif st=='new' and l=='>>>>': cur['edits'].append((cur['file'],'\n'.join(old),'\n'.join(new))); st=None
        elif st=='old': old.append(l)
        elif st=='new': new.append(l)
        elif st is None and l=='%%': st='test'
        elif st=='test': cur['test']+=l+'\n'
    return res
def sh(cmd,cwd,t=400):
    return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
stable=json.load(open('/opt/vp/BASELINE.json'))
def do(s):
    d=os.path.join(out,s['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    tmp=tempfile.mkdtemp(prefix='seed'); r=os.path.join(tmp,'repo')
    try:
        sh(f'cp -a /repo {r}','/')
        for f,o,n in s['edits']:
            p=os.path.join(r,f); t=open(p).read()
            if t.count(o)!=1: return f"{s['id']}: {t.count(o)} matches in {f}: {o[:60]!r}"
        dirp='' if s['pkg']=='.' else s['pkg']
        open(d+'/demo.sh','w').write(DEMO%(s['pkg'],s['flags'],dirp)); os.chmod(d+'/demo.sh',0o755)
        pkgname={'.':'qrpc'}.get(s['pkg'],os.path.basename(s['pkg']))
        test=s['test'].strip()+'\n'
        open(d+'/seed_verif_test.go','w').write(test if test.startswith('package') else f'package {pkgname}\n\n'+test)
        if s['pkg']=='.':
            open(d+'/seedhelpers_verif_test.go','w').write(open(here+'/seedhelpers.txt').read().replace('PKG',pkgname))
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        open(d+'/patch.diff','w').write('')
        for i in range(2):
            x=sh(d+'/demo.sh',r)
            if x.returncode!=0: return f"{s['id']}: demo fails unpatched\n"+x.stdout[-1500:]
        for f,o,n in s['edits']:
            p=os.path.join(r,f); t=open(p).read(); open(p,'w').write(t.replace(o,n))
        x=sh('gofmt -l . ; go build ./... && git diff --no-ext-diff',r)
        if x.returncode!=0: return f"{s['id']}: build\n"+x.stdout[-1500:]
        df=sh('git diff --no-ext-diff',r).stdout
        open(d+'/patch.diff','w').write(df)
        for i in range(2):
            x=sh(d+'/demo.sh',r)
            if x.returncode==0: return f"{s['id']}: demo passes with the patch (run {i})"
            if 'TestSeed' not in x.stdout and 'panic' not in x.stdout: return f"{s['id']}: demo does not run\n"+x.stdout[-1500:]
        return f"{s['id']}: ok: "+' / '.join(re.findall(r'.*(?:_test.go:\d+: |^panic: |DATA RACE).*',x.stdout)[:1])
    except subprocess.TimeoutExpired: return s['id']+': timeout'
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=='__main__':
    a=sys.argv[1:]; only=None
    if '-o' in a: i=a.index('-o'); only=a[i+1].split(','); del a[i:i+2]
    ss=[s for f in a for s in parse(f) if not only or s['id'] in only]
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(do,ss): print(m,flush=True)
