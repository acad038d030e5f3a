"""mutant_run.py PROP...: quick workloads in this process, stop at the first new violation."""
import os, sys, time, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rtm import core
for prop in sys.argv[1:]:
    mod = core.load(prop)
    known = core.known_findings(prop)
    items = [(f.name, i) for f in mod.families.values() for i in range(f.quick)]
    items.sort(key=lambda x: zlib.crc32(f'{x[0]}/{x[1]}'.encode()))
    t = time.time()
    n = 0
    for fam, i in items:
        ctx, st = core.run_one(mod, 'quick', 1, fam, i)
        n += 1
        v = [v for v in ctx.violations if v['key'] not in known]
        if v or st in ('timeout', 'harness'):
            print(f'KILLED {prop} {st} after {n} {v[0]["key"] if v else ""}')
            sys.stdout.flush()
            os._exit(0)
        if time.time() - t > 150:
            break
print('SURVIVED')
sys.stdout.flush()
os._exit(0)
