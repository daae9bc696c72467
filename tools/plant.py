import subprocess, os, json, sys, re, shutil
R='/tmp/w/plant'; S='/verif/seeded'; ORIG='934825a'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
ENV=dict(os.environ,PYTHONPATH=R,MPLBACKEND='Agg',MPLCONFIGDIR='/tmp/exp/mpl',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
def update():
    sh(f'git -C {R} checkout -- . ; git -C {R} pull -q --ff-only /repo main')
def tests():
    sh('rm -f file1.sdds header[1-4].sdds opal2elegant.sdds elegant2genesis.in opal_write.txt',cwd=R+'/tests')
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s/tests --timeout=300 --tb=short --disable-warnings --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/exp/junit.xml .'%R,cwd=R+'/tests',env=ENV)
    sh('python3 /opt/vp/results.py /tmp/exp/pt.json junit:/tmp/exp/junit.xml')
    sh('git clean -fdq tests',cwd=R)
    t=json.load(open('/tmp/exp/pt.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [x for x in st if x not in set(t['passed'])]
def plant(id, prop, subs, demo, needs, breaks, runcheck=True):
    update()
    assert not sh(f'git -C {R} status --porcelain').stdout.strip()
    d=os.path.join(S,id); os.makedirs(d,exist_ok=True)
    try:
        for path,old,new in subs:
            p=os.path.join(R,path); s=open(p).read(); assert s.count(old)==1,(id,path,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=sh(f'git -C {R} diff').stdout; open(d+'/patch.diff','w').write(diff)
        for path in set(x[0] for x in subs):
            bl=sh(f'git -C {R} blame -s HEAD -- {path}').stdout.splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',sh(f'git -C {R} diff -U0 -- {path}').stdout,re.M):
                a=int(m[1]); n=int(m[2] or 1)
                for l in bl[a-1:a-1+n]:
                    if not l.startswith('^'+ORIG): print('   NOT ORIGINAL:',l)
                if n==0: print('   pure insertion at',path,a)
        open(d+'/demo.py','w').write(demo.lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    finally:
        sh(f'git -C {R} checkout -- .')
    return verify(id,prop,runcheck)
def verify(id,prop=None,runcheck=True):
    d=os.path.join(S,id); prop=prop or json.load(open(d+'/meta.json'))['property']
    r0=sh(f'timeout 300 {d}/demo.sh',cwd=R,env=ENV)
    c=None
    try:
        a=sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode==0,a.stderr
        r1=sh(f'timeout 300 {d}/demo.sh',cwd=R,env=ENV)
        missing=tests()
        c=sh(f'/verif/check {prop}',env=dict(ENV,RSBEAMS_REPO=R)) if runcheck else None
    finally:
        sh(f'git -C {R} checkout -- .; git -C {R} clean -fdq')
    bad = r0.returncode or not r1.returncode or missing
    print('BAD ' if bad else '', id,prop,'demo clean',r0.returncode,'patched',r1.returncode,'missing',len(missing), 'CHECK', c and c.returncode, '' if c and c.returncode==1 else '<<<<<<<<< MISSED')
    if r0.returncode: print(r0.stdout[-500:],r0.stderr[-1500:])
    else: print('   patched says:',(r1.stdout+r1.stderr).strip().splitlines()[-1:] )
    if c: print('   ',[l[:250] for l in c.stdout.splitlines() if l.startswith('---')][:2], c.stderr[-300:] if c.returncode not in (0,1) else '')
    sys.stdout.flush()
    return c and c.returncode
if __name__=='__main__':
    update()
    for i in sys.argv[1:]: verify(i)
