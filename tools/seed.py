#!/usr/bin/env python3
"""Planted bugs, developer tool (no check uses it).
 seed.py save ID PROPERTY "needs" "what it breaks"   the uncommitted diff of /repo becomes seeded/ID/patch.diff; /repo is restored
 seed.py test ID...                                   apply, build, stable tests, demo (must fail), the property's check (must report), undo, demo (must pass)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def undo():
    sh('git -C /repo checkout -- .')


if sys.argv[1] == 'save':
    id, prop, needs, what = sys.argv[2:6]
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    p = sh('git -C /repo diff').stdout
    assert p.strip(), 'no diff'
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    undo()
    sys.exit()
ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
for id in ids:
    d = f'{V}/seeded/{id}'
    m = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --short').stdout.strip()
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode:
        print(id, 'DOES NOT APPLY', r.stdout)
        continue
    try:
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed.json')
        dm = sh(f'cd /repo && bash {d}/demo.sh')
        ck = sh(f"cd {V} && python3 run_check.py {m['property']} --quick")
    finally:
        undo()
    b2 = sh('bash /opt/vp/build.sh')
    d2 = sh(f'cd /repo && bash {d}/demo.sh')
    res = [b.returncode == 0, '44 passed' in t.stdout, dm.returncode != 0, d2.returncode == 0, ck.returncode == 1 and f"VIOLATION property={m['property']} " in ck.stdout]
    print(id, m['property'], 'build/tests/demo-fails/demo-ok/caught', ['no', 'yes'][0] if 0 else res, 'OK' if all(res) else '*** ' + (dm.stdout + d2.stdout)[-600:])
    if not res[4]:
        print(ck.stdout[-500:])
