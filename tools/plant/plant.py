#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: makes /verif/seeded/<id>/ from specs and validates them.
A spec file defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main=rust source | demo=dir)].
Validation: stable tests pass with the change, demo 0 without / non-0 with, check result recorded."""
import json, os, subprocess, sys, shutil, importlib.util, re
V='/verif'; R='/repo'
HERE=os.path.dirname(os.path.abspath(__file__))
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def clean():
    sh(f'git -C {R} checkout -- .')
    assert not sh(f'git -C {R} status --porcelain').stdout.strip()
def demo(d):
    env=dict(os.environ, DEMO_TARGET='/tmp/plant-target')
    r=sh(f'bash {d}/demo.sh', cwd=R, env=env); return r.returncode, (r.stdout+r.stderr)[-600:]
def stable():
    base=json.load(open('/opt/vp/BASELINE.json'))
    b=sh('bash /opt/vp/build.sh')
    if b.returncode: return 'BUILD FAILED '+b.stderr[-800:]
    sh('bash /opt/vp/test.sh /tmp/plant-out.json')
    out=json.load(open('/tmp/plant-out.json'))
    want=set(base.get('stable') or base.get('passed') or base.get('pass') or base.get('stable_tests'))
    got=set(out.get('passed') or out.get('pass'))
    miss=want-got
    return 'ok' if not miss else f'TESTS FAILED {miss}'
def main():
    spec=importlib.util.spec_from_file_location('s', sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids=sys.argv[2:]
    for b in m.BUGS:
        if ids and b['id'] not in ids: continue
        d=f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        clean()
        for f,old,new in b['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            assert s.count(old)==1, (b['id'], f, s.count(old))
            open(p,'w').write(s.replace(old,new))
        open(f'{d}/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(f'{d}/meta.json','w'), indent=1)
        if 'main' in b:
            open(f'{d}/main.rs','w').write(b['main'])
            shutil.copy(f'{HERE}/demo_lib.sh', f'{d}/demo.sh'); shutil.copy(f'{HERE}/demo_lib.lock', f'{d}/lock')
        else:
            for n,src in b['files'].items():
                if os.path.exists(src): shutil.copy(src, f'{d}/{n}')
                else: open(f'{d}/{n}','w').write(src)
        t=stable() if not b.get('romeo') else 'ok (not built by tests)'
        bad,out=demo(d)
        chk=sh(f"VERIF_SEED=1 VERIF_TIER=quick {V}/run.sh {b['prop']}")
        caught='CAUGHT' if chk.returncode==1 and f"VIOLATION property={b['prop']} " in chk.stdout else f'MISSED rc={chk.returncode}'
        first=[l for l in chk.stdout.splitlines() if l.startswith('  [')][:1]
        clean()
        good,gout=demo(d)
        ok = t.startswith('ok') and bad!=0 and good==0
        print(b['id'], b['prop'], 'VALID' if ok else f'INVALID tests={t} demo_bad={bad} demo_good={good} {out if bad in (0,2) else ""} {gout if good else ""}', caught, first, flush=True)
main()
