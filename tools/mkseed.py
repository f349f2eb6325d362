#!/usr/bin/env python3
"""Authoring aid: create and verify a planted change.  usage: mkseed.py SPEC.json  (no check reads this)
SPEC: {id, property, needs, breaks, edits:[[file, old, new]...], demo: {name: text,...} (demo.sh required)}"""
import json, os, subprocess, sys, shutil, re
V='/verif'; R='/repo'
def sh(c, cwd=None, env=None, t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return r.returncode,r.stdout
def main(p, check=True):
    s=json.load(open(p)) if isinstance(p,str) else p
    d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    assert sh('git status --porcelain',R)[1]=='' , 'repo dirty'
    try:
        for f,o,n in s['edits']:
            t=open(f'{R}/{f}').read()
            assert t.count(o)==1,(f,o,t.count(o))
            open(f'{R}/{f}','w').write(t.replace(o,n))
        rc,df=sh('git diff',R)
        open(d+'/patch.diff','w').write(df)
        for n,t in s['demo'].items():
            open(f'{d}/{n}','w').write(t); os.chmod(f'{d}/{n}',0o755 if n.endswith('.sh') else 0o644)
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        out={}
        rc,o=sh('bash /opt/vp/build.sh',R); out['build']=rc
        if rc: print(o[-1500:])
        rc,o=sh('bash /opt/vp/test.sh /tmp/seedtest.json',R); out['tests']=rc
        import json as J
        tj=J.load(open('/tmp/seedtest.json')); base=J.load(open('/opt/vp/BASELINE.json'))
        out['testjson']=str(tj)[:0]
        stable=base.get('stable') or base.get('tests') or base.get('passed') or base
        passed=set(tj.get('passed',[])); 
        miss=[x for x in (stable if isinstance(stable,list) else []) if x not in passed]
        out['missing']=miss[:5]
        tmp='/tmp/seeddemo'; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(d,tmp)
        for x in ('patch.diff','meta.json'): os.remove(f'{tmp}/{x}')
        rc,o=sh(f'bash {tmp}/demo.sh',R); out['demo_patched']=rc
        po=o
        if check:
            rc,o=sh(f"{V}/check {s['property']}"); out['check']=rc; co=o
    finally:
        sh('git checkout -- .',R)
    rc,o=sh(f'bash {tmp}/demo.sh',R); out['demo_clean']=rc
    if rc: print(o[-3000:])
    if out['demo_patched']==0: print(po[-2000:])
    shutil.rmtree(tmp,ignore_errors=True)
    good=out['build']==0 and not out['missing'] and out['demo_patched']!=0 and out['demo_clean']==0
    print(s['id'],'GOOD' if good else 'BAD',out)
    if check: print('   caught' if out['check']==1 else '   NOT CAUGHT', [l for l in co.splitlines() if 'VIOLATION' not in l][-1][:400] if co else '')
if __name__=='__main__':
    for p in sys.argv[1:]: main(p)
