#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE].

Re-executes itself under the interpreter that has the dependencies of the code
under test and imports structuralcodes from /repo's working tree.
"""
import os
import sys

VENV = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RTM_REPO', '/repo')

if os.environ.get('RTM_CHILD') != '1':
    env = dict(os.environ)
    env.update(
        RTM_CHILD='1',
        PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1',
        OPENBLAS_NUM_THREADS='1',
        OMP_NUM_THREADS='1',
        MKL_NUM_THREADS='1',
        PYTHONPATH=f'{REPO}:{HERE}',
    )
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__), *sys.argv[1:]], env)

import argparse  # noqa: E402

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import structuralcodes  # noqa: E402

if not os.path.abspath(structuralcodes.__file__).startswith(REPO + os.sep):
    print('INCONCLUSIVE: structuralcodes not imported from', REPO)
    sys.exit(2)

from rtm import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--setup', action='store_true')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
a = ap.parse_args()
if a.setup:  # nothing to build: pure Python, imported from the working tree
    import numpy, scipy, shapely  # noqa: F401, E401
    print('setup ok')
    sys.exit(0)
rc = core.main(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.replay)
sys.stdout.flush()
os._exit(rc)
