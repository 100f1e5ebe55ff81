#!/usr/bin/env python3
"""Makes and verifies planted bugs.
   seed.py make ID...     writes /verif/seeded/ID from tools/seeds/ID.py and checks it
   seed.py try ID... [-- PNN ...]  runs this property's (or the given) checks with the bug in place
tools/seeds/ID.py sets: prop, file(s), edits=[(file, old, new)], needs, breaks, demo, kind ('db'|'unit'), srcs, pl(bool)"""
import sys, os, subprocess, json, shutil, fcntl
V='/verif'; R='/repo'; BASE='fb4a509'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def load(i):
    d={}; exec(open(f'{V}/tools/seeds/{i}.py').read(), d); return d
def undo(): sh(f'git -C {R} checkout -- .')
def make(i):
    d=load(i); out=f'{V}/seeded/{i}'
    assert sh(f'git -C {R} status --short').stdout=='' , 'repo dirty'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    try:
        for f,old,new in d['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            assert s.count(old)==1, (i,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        patch=sh(f'git -C {R} diff').stdout
        open(f'{out}/patch.diff','w').write(patch)
        # removed lines must be original
        for f,_,_ in d['edits']:
            orig=sh(f'git -C {R} show {BASE}:{f}').stdout.split('\n')
            for l in sh(f'git -C {R} diff -U0 {f}').stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    print(i,'WARNING: not an original line:',l)
        kit=f'{V}/tools/seedkit'
        shutil.copy(f'{V}/harness/nolog.h', out); shutil.copy(f'{kit}/demo.h', out)
        open(f'{out}/demo.cc','w').write(d['demo'])
        if d.get('kind','db')=='db':
            shutil.copytree(f'{V}/fdb', f'{out}/fdb'); shutil.copy(f'{kit}/demo_db.sh', f'{out}/demo.sh')
        else:
            open(f'{out}/demo.sh','w').write(open(f'{kit}/demo_unit.sh').read().replace('@SRCS@',' '.join(d['srcs'])))
        if 'plsim.h' in d['demo']: shutil.copy(f'{kit}/plsim.h', out)
        os.chmod(f'{out}/demo.sh',0o755)
        json.dump({'property':d['prop'],'needs':d['needs'],'what_it_breaks':d['breaks']}, open(f'{out}/meta.json','w'), indent=1)
        r=sh('bash /opt/vp/test.sh /tmp/seed_test.json'); t=json.load(open('/tmp/seed_test.json'))
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        tests=base<=set(t['passed'])
        bad=sh(f'bash {out}/demo.sh', cwd=R)
    finally: undo()
    good=sh(f'bash {out}/demo.sh', cwd=R)
    ok=tests and good.returncode==0 and bad.returncode not in (0,2)
    print(i,'OK' if ok else 'BAD','tests',tests,'clean',good.returncode,'patched',bad.returncode,
          (bad.stderr or bad.stdout).strip()[-200:].replace('\n',' | '), '' if good.returncode==0 else good.stderr[-1500:])
    return ok
def tryit(i, checks):
    d=load(i)
    assert sh(f'git -C {R} status --short').stdout==''
    try:
        r=sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff'); assert r.returncode==0, r.stderr
        for c in checks or [d['prop']]:
            r=sh(f'cd {V} && ./check {c}'); v=[l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print(i,c,'rc',r.returncode,v[:1] or (r.stdout+r.stderr)[-200:],flush=True)
    finally: undo()
a=sys.argv[2:]; checks=[]
if '--' in a: checks=a[a.index('--')+1:]; a=a[:a.index('--')]
for i in a:
    try:
        if sys.argv[1]=='make': make(i)
        else: tryit(i,checks)
    except AssertionError as e: print(i,'ERROR',e); undo()
