"""detect.py [-t tier] [ID...]: run the owning property's check on each planted bug.

Each patch is applied in a scratch copy bind-mounted over /repo in a private
mount namespace.
"""
import json, os, subprocess, sys
a = sys.argv[1:]
tier = 'quick'
if a[:1] == ['-t']:
    tier = a[1]
    a = a[2:]
V = '/verif/seeded'
rows = []
for bid in a or sorted(os.listdir(V)):
    scr = f'/tmp/det_{bid}'
    subprocess.run(f'rm -rf {scr}; cp -a /repo {scr}; git -C {scr} checkout -q -- .; git -C {scr} apply {V}/{bid}/patch.diff', shell=True, check=True)
    prop = json.load(open(f'{V}/{bid}/meta.json'))['property']
    subprocess.run(f'cp -a /verif/evidence /tmp/ev_{bid} 2>/dev/null', shell=True)
    r = subprocess.run(f"unshare -m bash -c 'mount --make-rprivate / && mount --bind {scr} /repo && mkdir -p /tmp/evd_{bid} && mount --bind /tmp/evd_{bid} /verif/evidence && cd /verif && /opt/venv/bin/python check.py {prop} --tier {tier} --seed 1'", shell=True, capture_output=True, text=True)
    keys = [l for l in r.stdout.splitlines() if l.startswith('# ')][:3]
    viol = any(l.startswith(f'VIOLATION property={prop}') for l in r.stdout.splitlines())
    print(bid, prop, 'CAUGHT' if r.returncode == 1 and viol else f'MISSED rc={r.returncode}', ' | '.join(k[:110] for k in keys), flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-500:], r.stderr[-500:])
    subprocess.run(f'rm -rf {scr} /tmp/ev_{bid} /tmp/evd_{bid}', shell=True)
