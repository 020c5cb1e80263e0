"""Development aid: turns a planted-bug description into /verif/seeded/<id>/ and confirms it in a scratch copy.
usage: from mkseed import seed; seed(id, prop, edits, pkg, test_go, needs, breaks)"""
import os,subprocess,json,shutil,tempfile
V='/verif'
DEMO='''#!/bin/bash
# Runs the demonstration as an in-package test laid over the source tree.
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/@PKG@zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 @RACE@-overlay "$t/o.json" -run '^TestZZDemo$' -timeout 200s ./@PKG@
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def seed(id,prop,edits,pkg,test,needs,breaks,race=False):
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
    p=pkg.strip('./'); p=p+'/' if p else ''
    open(d+'/demo.sh','w').write(DEMO.replace('@PKG@',p).replace('@RACE@','-race ' if race else '')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(test)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    t=tempfile.mkdtemp(prefix='seed'); r=t+'/repo'
    sh(f'cp -a /repo {r}')
    try:
        for f,old,new,*nth in edits:
            s=open(f'{r}/{f}').read(); n=nth[0] if nth else 0
            parts=s.split(old)
            if len(parts)<n+2: print(id,'STALE',old[:70]); return
            if not nth and len(parts)>2: print(id,'AMBIGUOUS',len(parts)-1,old[:70]); return
            open(f'{r}/{f}','w').write(old.join(parts[:n+1])+new+old.join(parts[n+1:]))
        diff=sh(f'git -C {r} diff').stdout
        open(d+'/patch.diff','w').write(diff)
        patched=sh(f'bash {d}/demo.sh',cwd=r)
        b=sh('. /opt/vp/env.sh; go build . ./gorwp ./topology ./ibeam_lib_monogfx && go test -vet=off -count=1 . ./topology/... ./ibeam_lib_monogfx/... ./gorwp 2>&1 | tail -30',cwd=r)
        sh('git checkout -- .',cwd=r)
        clean=sh(f'bash {d}/demo.sh',cwd=r)
        ok=patched.returncode!=0 and clean.returncode==0 and 'FAIL' not in b.stdout and b.returncode==0
        print(id,'OK' if ok else 'BAD','patched',patched.returncode,'clean',clean.returncode)
        if not ok: print((clean.stdout+clean.stderr)[-1500:] if clean.returncode else (b.stdout+b.stderr)[-1500:] if 'FAIL' in b.stdout or b.returncode else patched.stdout[-800:])
        else: print('   ',[l for l in patched.stdout.splitlines() if 'zz_demo' in l or 'panic' in l or 'RACE' in l or 'build failed' in l][:2])
    finally:
        sh(f'rm -rf {t}')
