"""C20: design-code selection is exact and isolated."""
import types

import structuralcodes as sc
from structuralcodes import codes
from structuralcodes.materials import concrete as mconc, reinforcement as mreinf

from ..core import Module
from .c19 import CODES, CONC, REIN, check_props, pick, ref_concrete, ref_reinf

M = Module(
    'C20',
    'random histories of selections (names in any case, modules, None, invalid values), factory '
    'calls with and without an explicit code, failing calls and annex settings; a model of the '
    'active code is compared with the class and properties of what the factories make after '
    'every step; non-trivial = distinct (active code, operation, outcome) transitions and histories',
    required={'mon:active': 4000, 'mon:explicit': 800, 'mon:refused': 800, 'mon:unset': 300, 'mon:old': 400},
)

NAMES = ['mc2010', 'mc2020', 'ec2_2004', 'ec2_2023']
MODS = {**CODES, 'mc2020': codes.mc2020}
BADN = ['', 'ec2', 'EC2-2004', 'ec2_2005', 'mc', ' mc2010', 'mc2010 ', 'mc_2010', 'ec2_2004x', 'none', 'None',
        'fib Model Code 2010', '__init__', 'codes', 'EUROCODE 2 1992-1-1:2004']


def anycase(r, s):
    return pick(r, s, s.upper(), s.capitalize(), ''.join(c.upper() if r.integers(2) else c for c in s))


def fake(*drop):
    m = types.ModuleType('fake_code')
    for k, v in (('__title__', 'fake'), ('__year__', '1900'), ('__materials__', ('concrete', 'reinforcement'))):
        if k not in drop:
            setattr(m, k, v)
    return m


def bad(r):
    k = int(r.integers(4))
    if k == 0:
        return types.ModuleType('empty')
    if k == 1:
        return fake(pick(r, '__title__', '__year__', '__materials__'))
    if k == 2:
        return pick(r, 2010, 1.5, ['mc2010'], ('ec2_2004',), object(), {'mc2010': 1}, b'mc2010', True)
    return pick(r, *BADN)


def conc(**kw):
    return mconc.create_concrete(fck=30, **kw)


def reinf(**kw):
    return mreinf.create_reinforcement(fyk=500, Es=2e5, ftk=540, epsuk=0.05, **kw)


def observe(ctx, model, after):
    """The code used when none is passed is the model's."""
    for what, make, table in (('concrete', conc, CONC), ('reinforcement', reinf, REIN)):
        v, ex = ctx.attempt(what, make)
        if model is None:
            ctx.check('unset', isinstance(ex, ValueError), f'no code:{what}:{after}',
                      f'no code is set but {v!r} {ex!r}')
        elif model in table:
            ctx.check('active', ex is None and type(v) is table[model], f'active:{what}:{after}',
                      f'active code should be {model}, got {type(v).__name__} {ex!r}')
        else:  # a code without implementation of this material
            ctx.check('active', v is None and (ex is None or isinstance(ex, ValueError)),
                      f'active:{what}:{after}', f'{model} has no {what}, got {v!r} {ex!r}')


REQ = dict(fyk=500.0, Es=2e5, ftk=540.0, epsuk=0.05)


@M.family(quick=15000, thorough=60000, timeout=60)
def histories(ctx):
    r = ctx.rng
    sc.set_design_code(None)
    model = None
    kept = []
    hist = []
    try:
        observe(ctx, model, 'reset')
        for step in range(int(r.integers(5, 16))):
            op = pick(r, 'set', 'set', 'module', 'none', 'badset', 'explicit', 'explicit', 'explicit', 'failing',
                      'badexplicit', 'annex', 'list', 'custom', 'failset')
            hist.append(op)
            ctx.note(history=hist[:], model=str(model))
            setter = pick(r, sc.set_design_code, codes.set_design_code)
            if op == 'set':
                model = pick(r, *NAMES)
                ctx.call('set', setter, anycase(r, model))
            elif op == 'module':
                model = pick(r, *NAMES)
                ctx.call('set', setter, MODS[model])
            elif op == 'custom':
                ctx.call('set', setter, fake())
                model = 'fake'
            elif op == 'none':
                model = None
                if r.integers(2):
                    ctx.call('set', setter, None)
                else:
                    ctx.call('set', setter)
            elif op == 'badset':
                b = bad(r)
                ctx.rejects('refused', 'set_design_code', setter, b, key='accepted invalid code')
            elif op == 'explicit':
                code = pick(r, *NAMES)
                given = anycase(r, code)
                for make, table in ((conc, CONC), (reinf, REIN)):
                    v, ex = ctx.attempt('explicit', make, design_code=given)
                    if code in table:
                        ctx.check('explicit', ex is None and type(v) is table[code], 'explicit code',
                                  f'{given}: {type(v).__name__} {ex!r}')
                        kept.append((code, v, 'fck' in dir(v)))
                    else:
                        ctx.check('explicit', v is None and (ex is None or isinstance(ex, ValueError)),
                                  'explicit code', f'{given}: {v!r} {ex!r}')
            elif op == 'failing':  # valid code, failing creation
                code = pick(r, *CODES)
                ctx.rejects('refused', 'failing creation', conc, design_code=anycase(r, code),
                            constitutive_law='nonsense')
                ctx.rejects('refused', 'failing creation', conc, design_code=code, fcm=1.0)
                ctx.rejects('refused', 'failing creation', reinf, design_code=code, gamma_s=0.5)
                ctx.rejects('refused', 'failing creation', conc, design_code=code, existing=True,
                            exc=(ValueError, NotImplementedError))
            elif op == 'badexplicit':
                b = pick(r, *BADN)
                ctx.rejects('refused', 'factory code', conc, design_code=b, key='factory accepted invalid code')
                ctx.rejects('refused', 'factory code', reinf, design_code=b, key='factory accepted invalid code')
            elif op == 'annex':
                ctx.call('annex', sc.set_national_annex, pick(r, 'NO', 'de', 'It'))
            elif op == 'list':
                ls = ctx.call('list', sc.get_design_codes)
                ctx.check('explicit', sorted(ls) == sorted(NAMES), 'list', 'advertised codes', got=ls)
                ls.clear()  # the caller's list is the caller's
            elif op == 'failset' and model in CODES:  # failing creation with the active code
                ctx.rejects('refused', 'failing creation', conc, constitutive_law='nonsense')
                ctx.rejects('refused', 'failing creation', reinf, gamma_s=0.5)
            observe(ctx, model, op)
            ctx.sig(model, op)
        # materials made earlier keep their code
        for code, o, is_c in kept[-6:]:
            p = ref_concrete(code, 30.0, {}) if is_c else ref_reinf(code, REQ, {})
            check_props(ctx, code, o, p, 'old')
        if r.integers(3) == 0:  # every advertised name works
            for nm in sc.get_design_codes():
                ctx.call('set', sc.set_design_code, anycase(r, nm))
                observe(ctx, nm, 'advertised')
        ctx.sig(*hist)
    finally:
        sc.set_design_code(None)
