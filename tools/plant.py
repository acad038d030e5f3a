"""plant.py BUGFILE...: confirm planted bugs in a scratch copy and keep them.

A bug file defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)] and
DEMO (python source). The scratch copy is bind-mounted over /repo in a private
mount namespace, so that the real /repo is never touched.
"""
import json, os, subprocess, sys, runpy
V = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(scr, cmd):
    return sh(f"unshare -m bash -c 'mount --make-rprivate / && mount --bind {scr} /repo && cd /repo && {cmd}'")


for f in sys.argv[1:]:
    b = runpy.run_path(f)
    bid = b['ID']
    scr = f'/tmp/scr_{bid}'
    sh(f'rm -rf {scr}; cp -a /repo {scr}; git -C {scr} checkout -q -- .')
    d = f'{V}/{bid}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(b['DEMO'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r0 = inside(scr, f'bash {d}/demo.sh')
    ok = True
    for path, old, new in b['EDITS']:
        p = f'{scr}/structuralcodes/{path}'
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        base = sh(f'git -C /repo show c71b018:structuralcodes/{path}').stdout
        gone = [l for l in old.splitlines() if l not in new.splitlines()]
        if any(l not in base.splitlines() for l in gone):
            print(bid, 'NOTE: edits lines that are not in the original', [l for l in gone if l not in base.splitlines()][:2])
        if s.count(old) != 1:
            print(bid, 'EDIT MATCHES', s.count(old), path)
            ok = False
            break
        open(p, 'w', newline='').write(s.replace(old, new))
    if not ok:
        continue
    sh(f'git -C {scr} diff > {d}/patch.diff')
    r1 = inside(scr, f'bash {d}/demo.sh')
    t = inside(scr, f'bash /opt/vp/test.sh /tmp/plant_{bid}.json')
    o = json.load(open(f'/tmp/plant_{bid}.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list) and len(v) > 100)
    names = {n if isinstance(n, str) else json.dumps(n) for n in names}
    passed = {n if isinstance(n, str) else json.dumps(n) for n in o['passed']}
    miss = names - passed
    # lines of the original repository only
    good = r0.returncode == 0 and r1.returncode != 0 and not miss
    print(bid, 'OK' if good else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests lost', len(miss), (r1.stderr or r1.stdout).strip().splitlines()[-1:] , flush=True)
    if r0.returncode:
        print(r0.stderr[-600:])
    if miss:
        print(list(miss)[:2])
    json.dump(dict(property=b['PROPERTY'], needs=b['NEEDS'], what_it_breaks=b['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    sh(f'rm -rf {scr} /tmp/plant_{bid}.json')
    if not good:
        sh(f'rm -rf {d}')
