#!/usr/bin/env python3
"""Development aid: applies textual mutants to copies of /repo files (as a loader overlay) and runs checks.
usage: mut.py FILE.json [filter]   FILE: list of {name, props, file, old, new, expect: alarm|quiet}"""
import json,sys,os,subprocess,concurrent.futures as cf,tempfile
muts=[]
for f in sys.argv[1].split(','):
    muts+=json.load(open(f))
flt=sys.argv[2] if len(sys.argv)>2 else ''
def run(m):
    d=tempfile.mkdtemp(prefix='mut')
    ov=[]
    edits=m.get('edits') or [m]
    by={}
    for ed in edits:
        src='/repo/'+ed['file']
        s=by.get(src) or open(src).read()
        if ed['old'] not in s: return m,'STALE','old text not found: '+ed['old'][:60]
        n=ed.get('nth',0)
        parts=s.split(ed['old'])
        s=ed['old'].join(parts[:n+1])+ed['new']+ed['old'].join(parts[n+1:])
        by[src]=s
    for i,(src,s) in enumerate(by.items()):
        p=f'{d}/{i}.go'; open(p,'w').write(s); ov.append(src+'='+p)
    out=[]
    res=[]
    for pr in m['props']:
        env=dict(os.environ,RP_OVERLAY=';'.join(ov),VERIF_DIR='/verif',RP_EVDIR=d)
        r=subprocess.run(['/tmp/rpcheck',pr],capture_output=True,text=True,env=env)
        res.append((pr,r.returncode,r.stdout))
    return m,res,d
bad=0
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for m,res,x in ex.map(run,[m for m in muts if flt in m['name']]):
        if res=='STALE': print('STALE',m['name'],x); bad+=1; continue
        for pr,rc,out in res:
            want=m.get('expect','alarm')
            got='alarm' if rc==1 else 'quiet' if rc==0 else f'rc{rc}'
            typ='does not type-check' in out or 'analysis-input' in out
            tag='ok ' if got==want and not typ else 'BAD'
            if tag=='BAD': bad+=1
            line=[l for l in out.splitlines() if l.startswith('  [') or 'type-check' in l or l.startswith('  rule')]
            print(tag,m['name'],pr,got,(' | '.join(line))[:260] if got=='alarm' or tag=='BAD' else '')
        subprocess.run(['rm','-rf',x])
print('bad:',bad)
