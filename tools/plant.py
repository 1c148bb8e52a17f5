#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py...  Each SPEC defines ID, PROP, CRATES (tested), EDITS {file: [(old, new)]}, DEMO (main.rs), DEPS, NEEDS, BREAKS.
Confirms in a scratch clone (/tmp/scr): demo passes clean / fails patched, stable tests of CRATES pass; then runs the check on /repo with the patch."""
import subprocess, sys, os, json, shutil, re
R='/tmp/scr'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
ENV='. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/tgts CARGO_NET_OFFLINE=true; '
def main(spec):
    g={}; exec(open(spec).read(), g)
    if not os.path.isdir(R): subprocess.check_call(['git','clone','-q','/repo',R])
    sh(f'cd {R} && git checkout -q -- . && git pull -q'); 
    d=f"/verif/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    for f,ps in g['EDITS'].items():
        p=f'{R}/crates/{f}'; s=open(p).read()
        for a,b in ps:
            assert s.count(a)==1,(f,a,s.count(a)); s=s.replace(a,b)
        open(p,'w').write(s)
    open(d+'/patch.diff','w').write(sh(f'cd {R} && git diff').stdout)
    # only original lines may be changed
    for f in g['EDITS']:
        bl=sh(f'cd {R} && git diff -U0 -- crates/{f}').stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',bl,re.M):
            a=int(m[1]); n=int(m[2] or 1)
            if n==0: continue
            for l in sh(f'cd {R} && git blame -s -L{a},{a+n-1} HEAD -- crates/{f}').stdout.splitlines():
                h=l.split()[0]
                if not h.startswith('^') : print('  NOTE line from commit',l[:100])
    open(d+'/demo.rs','w').write(g['DEMO'])
    open(d+'/deps.txt','w').write(g['DEPS'])
    if not os.path.exists(d+'/demo.sh'): shutil.copy('/verif/seeded/T01-cancel-reorders/demo.sh', d)
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']}, open(d+'/meta.json','w'))
    ok=True
    r=sh(f'cd {R} && bash {d}/demo.sh'); print(g['ID'],'demo patched rc',r.returncode,(r.stdout+r.stderr)[-300:].strip()); ok&=r.returncode not in(0,90)
    base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for c in g['CRATES']:
        t=sh(ENV+f'cd {R} && cargo test --offline -p {c} --lib 2>&1').stdout
        fails=[l.split()[1] for l in t.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
        bad=[f for f in fails if any(b.startswith(c+':') and b.endswith(f) for b in base)]
        print('  tests',c,'failed:',fails,'stable failed:',bad, [l for l in t.splitlines() if l.startswith('test result')]); ok&=not bad and 'test result' in t
    sh(f'cd {R} && git checkout -q -- .')
    r=sh(f'cd {R} && bash {d}/demo.sh'); print('  demo clean rc',r.returncode,(r.stdout+r.stderr)[-300:] if r.returncode else ''); ok&=r.returncode==0
    print('  VALID' if ok else '  INVALID')
    assert sh('git -C /repo status --short').stdout==''
    subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
    try:
        r=sh(f"cd /verif && VERIF_TIER=quick ./check {g['PROP']}")
        print('  check rc',r.returncode,'CAUGHT' if r.returncode==1 else 'MISSED'); print('   ','\n    '.join([l for l in r.stdout.splitlines() if not l.startswith('section')][:3])); 
    finally: subprocess.check_call(['git','-C','/repo','checkout','--','.'])
for s in sys.argv[1:]: main(s)
