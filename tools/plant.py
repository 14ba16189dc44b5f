#!/usr/bin/env python3
"""tools/plant.py BUGFILE [ID...]: makes /verif/seeded/<ID>/ from the descriptions of planted bugs of BUGFILE, after confirming each.
/repo is patched and restored. Bugs: list of dict(id, property, edits=[(file, old, new)], needs, breaks, main)."""
import sys, os, subprocess, json, shutil, runpy
V = '/verif'
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
lock = open(V + '/harness/Cargo.lock').read().replace('name = "harness"', 'name = "demo"')
for b in bugs:
    if want and b['id'] not in want: continue
    d = f"{V}/seeded/{b['id']}"
    if not want and os.path.exists(d + '/meta.json'): continue
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
    try:
        for f, o, n in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(o) != 1: raise Exception(f"{b['id']}: {f}: {s.count(o)} occurrences of {o!r}")
            open(p, 'w').write(s.replace(o, n))
        diff = sh('git -C /repo diff').stdout
        t = sh('bash /tmp/bt.sh').stdout
        if 'missing []' not in t: print(b['id'], 'TESTS', t[-1500:]); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(b['main'])
        for k in ('expect', 'warn', 'nowarn'):
            if k in b: open(f'{d}/{k}', 'w').write(b[k])
        open(d + '/lock', 'w').write(lock)
        shutil.copy(V + '/tools/demo.sh', d + '/demo.sh')
        bad = sh(f'{d}/demo.sh', cwd='/repo')
    except Exception as e:
        print(b['id'], 'FAILED', e); continue
    finally:
        sh('git -C /repo checkout -- .')
    good = sh(f'{d}/demo.sh', cwd='/repo')
    if bad.returncode == 0 or good.returncode != 0:
        print(b['id'], 'DEMO bad', bad.returncode, bad.stdout[-300:], bad.stderr[-300:], 'good', good.returncode, good.stdout[-600:], good.stderr[-600:])
        shutil.rmtree(d); continue
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], 'ok:', (bad.stdout + bad.stderr).strip()[:200])
