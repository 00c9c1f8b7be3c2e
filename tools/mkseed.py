#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id> from tools/seedsrc/<id>.py, after checking in a scratch copy that the change
builds, passes the stable tests, and that the demonstration passes without it and fails with it.
A spec defines: prop, file edits [(file, old, new), ...], pkg, demo (Go test source), needs, breaks; uses_stubs, hub."""
import sys,os,subprocess,json,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOSUMDB='off')
def sh(c,cwd,**k):
    return subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# runs demo_test.go inside PKGDIR of the repository in the current directory
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
OVERLAY
MODFILE
go test -vet=off -count=1 -timeout 120s -overlay "$W/overlay.json" $MOD -run TestZZDemo ./PKGDIR
'''
def make(id):
    s={}
    exec(open(f'{V}/tools/seedsrc/{id}.py').read(),s)
    T=tempfile.mkdtemp(prefix='seed-')
    R=T+'/repo'
    try:
        sh(f'cp -a /repo {R}','/')
        for f,old,new in s['edits']:
            t=open(f'{R}/{f}').read()
            if t.count(old)!=1:
                print(id,'edit does not apply exactly once:',f,t.count(old)); return False
            open(f'{R}/{f}','w').write(t.replace(old,new))
        r=sh('gofmt -e -l pkg cmd',R)
        if 'expected' in r.stdout: print(id,'syntax',r.stdout); return False
        D=f'{V}/seeded/{id}'
        shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
        open(D+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=R,stdout=subprocess.PIPE,text=True).stdout)
        pk=s['pkg']; files={'demo_test.go':s['demo']}
        pn=s.get('pkgname',os.path.basename(pk))
        if s.get('hub'):
            files['hub_test.go']=open(f'{V}/tools/seedsrc/hub_test.go.txt').read().replace('package PKG','package '+pn)
        for n,t in files.items(): open(f'{D}/{n}','w').write(t)
        ov='cat > "$W/overlay.json" <<J\n{"Replace":{'+','.join(f'"$PWD/{pk}/zz_{n}":"$D/{n}"' for n in files)+(''.join(f',"$PWD/{x}":""' for x in s.get('drop',[])))+'}}\nJ'
        mod='MOD='
        if s.get('stubs'):
            shutil.copytree(V+'/stubs',D+'/stubs')
            mod='''cp go.sum "$W/go.sum"
{ cat go.mod; cat <<M

require (
	gitlab.com/alephledger/core-go v0.0.0
	github.com/binance-chain/tss-lib v0.0.0
	github.com/rs/zerolog v0.0.0
)
replace gitlab.com/alephledger/core-go => $D/stubs/core-go
replace github.com/binance-chain/tss-lib => $D/stubs/tss-lib
replace github.com/rs/zerolog => $D/stubs/zerolog
M
} > "$W/go.mod"
MOD="-modfile=$W/go.mod"'''
        open(D+'/demo.sh','w').write(DEMO.replace('OVERLAY',ov).replace('MODFILE',mod).replace('PKGDIR',pk))
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(D+'/meta.json','w'),indent=1)
        ok=True
        # with the change
        a=sh(f'timeout 280 bash {D}/demo.sh',R)
        if a.returncode==0: print(id,'demo passes with the change'); ok=False
        if 'build failed' in a.stdout or 'setup failed' in a.stdout: print(id,'does not build:\n',a.stdout[-1500:]); ok=False
        t=sh('go build ./pkg/curve ./pkg/crypto/... && go test -vet=off -count=1 ./pkg/curve ./pkg/crypto/...',R)
        if t.returncode!=0: print(id,'existing tests fail:\n',t.stdout[-800:]); ok=False
        if s.get('stubs'):
            m=T+'/m'; sh(f'bash {V}/gomod/mkmod.sh {m}','/')
            t=sh(f'go build -modfile={m}/go.mod ./...',R)
            if t.returncode!=0: print(id,'build with stubs fails:\n',t.stdout[-800:]); ok=False
        sh('git checkout -q -- .',R)
        b=sh(f'timeout 280 bash {D}/demo.sh',R)
        if b.returncode!=0: print(id,'demo fails without the change:\n',b.stdout[-1500:]); ok=False
        if ok: print(id,'ok:',' '.join(l.strip() for l in a.stdout.splitlines() if 'demo_test' in l or 'panic:' in l)[:200])
        else: open(f'/tmp/seed.{id}.log','w').write(a.stdout)
        return ok
    finally:
        shutil.rmtree(T,ignore_errors=True)
for i in sys.argv[1:]: make(i)
