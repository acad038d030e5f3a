"""C19: material objects derive code properties and honour user values."""
import math
import warnings

import numpy as np

import structuralcodes as sc
from structuralcodes.codes import ec2_2004, ec2_2023, mc2010
from structuralcodes.materials import basic, concrete as mconc, reinforcement as mreinf
from structuralcodes.materials.constitutive_laws import (
    BilinearCompression, Elastic, ElasticPlastic, InitialStrain, ParabolaRectangle, Parallel,
    Popovics, Sargin, UserDefined, create_constitutive_law, get_constitutive_laws_list)

from ..core import Module
from ..ref import ref_law
from .c21 import (AGG, MC_EC1, MC_ECL, MC_GRADE, MC_K, fctm_low, lin, norm, ref_ec2, ref_ec3, ref_ecu1_04,  # noqa: F401
                  ref_ecu2, ref_fctm_23, ref_fctm_mc, ref_ktc, ref_ktt, ref_n)

M = Module(
    'C19',
    'concrete and reinforcement objects of all codes with random subsets of user values, '
    'made directly and by factory, all properties read in random order and repeatedly, law '
    'response compared with an own law built from the reference properties; oracle: own '
    'transcription of formulas plus the rule "user value wins and enters everything derived '
    'from it"; non-trivial = distinct (code, law, set of overridden values)',
    required={'mon:property': 5000, 'mon:law': 1500, 'mon:reject': 300, 'mon:warn': 300,
              'mon:factory': 300, 'mon:isolated': 300, 'mon:basic': 200},
)

CODES = {'ec2_2004': ec2_2004, 'ec2_2023': ec2_2023, 'mc2010': mc2010}
CONC = {'ec2_2004': mconc.ConcreteEC2_2004, 'ec2_2023': mconc.ConcreteEC2_2023,
        'mc2010': mconc.ConcreteMC2010}
REIN = {'ec2_2004': mreinf.ReinforcementEC2_2004, 'ec2_2023': mreinf.ReinforcementEC2_2023,
        'mc2010': mreinf.ReinforcementMC2010}
LAWS = {'ec2_2004': ['elastic', 'parabolarectangle', 'bilinearcompression', 'sargin', 'popovics'],
        'ec2_2023': ['elastic', 'parabolarectangle', 'sargin', 'popovics'],
        'mc2010': ['elastic', 'parabolarectangle', 'bilinearcompression', 'sargin', 'popovics']}
RLAWS = ['elastic', 'elasticperfectlyplastic', 'elasticplastic']
TYPES = {'elastic': Elastic, 'parabolarectangle': ParabolaRectangle, 'bilinearcompression': BilinearCompression,
         'sargin': Sargin, 'popovics': Popovics, 'elasticplastic': ElasticPlastic,
         'elasticperfectlyplastic': ElasticPlastic}
FCK = {'ec2_2004': (12, 90), 'ec2_2023': (12, 100), 'mc2010': (12, 120)}
NODES = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120]


def pick(r, *v):
    return v[int(r.integers(len(v)))]


def style(r, s):
    return pick(r, s, s.upper(), s.capitalize(), s)


# ---------------------------------------------------------------- reference
def ref_concrete(code, fck, u, dev='CN', kE=9500):
    """Properties by the code; u holds the (absolute) user values."""
    g = {k: v for k, v in u.items() if v is not None}
    p = {'fck': fck, 'gamma_c': g.get('gamma_c', 1.5)}
    p['fcm'] = g.get('fcm', fck + 8)
    fcm = p['fcm']
    if code == 'ec2_2004':
        p['alpha_cc'] = g.get('alpha_cc', 1.0)
        p['fctm'] = g.get('fctm', ref_fctm_mc(fck))
        p['fctk_5'] = g.get('fctk_5', 0.7 * p['fctm'])
        p['fctk_95'] = g.get('fctk_95', 1.3 * p['fctm'])
        p['Ecm'] = g.get('Ecm', 22e3 * (fcm / 10) ** 0.3)
        p['eps_c1'] = g.get('eps_c1', min(0.7 * fcm ** 0.31, 2.8) * 1e-3)
        p['eps_cu1'] = g.get('eps_cu1', ref_ecu1_04(fck))
        p['k_sargin'] = g.get('k_sargin', 1.05 * p['Ecm'] * p['eps_c1'] / fcm)
        p['fcd'] = p['alpha_cc'] * fck / p['gamma_c']
        p['E'] = p['Ecm']
    elif code == 'ec2_2023':
        p['fctm'] = g.get('fctm', ref_fctm_23(fck))
        p['fctk_5'] = g.get('fctk_5', 0.7 * p['fctm'])
        p['fctk_95'] = g.get('fctk_95', 1.3 * p['fctm'])
        p['Ecm'] = g.get('Ecm', kE * fcm ** (1 / 3))
        p['eps_c1'] = g.get('eps_c1', min(0.7 * fcm ** (1 / 3), 2.8) * 1e-3)
        p['eps_cu1'] = g.get('eps_cu1', min(2.8 + 14 * (1 - fcm / 108) ** 4, 3.5) * 1e-3)
        p['k_sargin'] = g.get('k_sargin', 1.05 * p['Ecm'] * p['eps_c1'] / fcm)
        p['eps_c2'] = g.get('eps_c2', 2e-3)
        p['eps_cu2'] = g.get('eps_cu2', 3.5e-3)
        p['n_parabolic_rectangular'] = g.get('n_parabolic_rectangular', 2.0)
        p['fcd'] = fcd23(fck, p['gamma_c'], dev)
        p['fctd'] = ref_ktt(28, dev) * p['fctk_5'] / p['gamma_c']
        p['E'] = p['Ecm']
        return p
    else:
        p['alpha_cc'] = g.get('alpha_cc', 1.0)
        p['fctm'] = g.get('fctm', ref_fctm_mc(fck))
        p['fctkmin'] = g.get('fctkmin', 0.7 * p['fctm'])
        p['fctkmax'] = g.get('fctkmax', 1.3 * p['fctm'])
        p['Gf'] = g.get('Gf', 73 * (fck + 8) ** 0.18)
        p['Eci'] = g.get('Eci', 21500 * (fcm / 10) ** (1 / 3))
        p['eps_c1'] = g.get('eps_c1', lin(fck, MC_GRADE, MC_EC1) * 1e-3)
        p['eps_cu1'] = g.get('eps_cu1', lin(fck, MC_GRADE, MC_ECL) * 1e-3)
        p['k_sargin'] = g.get('k_sargin', lin(fck, MC_GRADE, MC_K))
        p['fcd'] = p['alpha_cc'] * fck / p['gamma_c']
        p['E'] = p['Eci']
    p['eps_c2'] = g.get('eps_c2', ref_ec2(fck))
    p['eps_cu2'] = g.get('eps_cu2', ref_ecu2(fck))
    p['n_parabolic_rectangular'] = g.get('n_parabolic_rectangular', ref_n(fck))
    p['eps_c3'] = g.get('eps_c3', ref_ec3(fck))
    p['eps_cu3'] = g.get('eps_cu3', ref_ecu2(fck))
    return p


def fcd23(fck, gamma_c, dev, t_ref=28, t0=91, fck_ref=40):
    return min((fck_ref / fck) ** (1 / 3), 1.0) * ref_ktc(t_ref, t0, dev) * fck / gamma_c


def spec(law, p):
    if law == 'elastic':
        return {'kind': 'elastic', 'E': p['E']}
    if law == 'parabolarectangle':
        return {'kind': 'pr', 'fc': p['fcd'], 'eps_0': p['eps_c2'], 'eps_u': p['eps_cu2'],
                'n': p['n_parabolic_rectangular']}
    if law == 'bilinearcompression':
        return {'kind': 'bilin', 'fc': p['fcd'], 'eps_c': p['eps_c3'], 'eps_cu': p['eps_cu3']}
    if law == 'sargin':
        return {'kind': 'sargin', 'fc': p['fcm'], 'eps_c1': p['eps_c1'], 'eps_cu1': p['eps_cu1'],
                'k': p['k_sargin']}
    if law == 'popovics':
        return {'kind': 'popovics', 'fc': p['fcd'], 'eps_c': p['eps_c1'], 'eps_cu': p['eps_cu1'], 'Ec': p['E']}
    raise KeyError(law)


def usable(sp):
    """Laws whose expression has no pole inside the strain range."""
    if sp['kind'] == 'sargin':
        return 1 + (sp['k'] - 2) * sp['eps_cu1'] / sp['eps_c1'] > 0.05
    if sp['kind'] == 'popovics':
        return sp['Ec'] > 1.1 * sp['fc'] / sp['eps_c']
    return True


def check_law(ctx, name, law, sp, label):
    ok = ctx.check('law', type(law) is TYPES[name], f'law type:{label}:{name}',
                   f'{type(law).__name__} for keyword {name}')
    if not ok or not usable(sp):
        return
    ref = ref_law(sp)
    lo, hi = ref.lims
    xs = [lo * float(ctx.rng.uniform(0.02, 0.98)) for _ in range(5)]
    xs += [hi * float(ctx.rng.uniform(0.02, 0.98)) if hi < 1 else 1e-3] + [lo * 1.2 if lo > -1 else -1.5e-3]
    near = lambda x: any(abs(x - k) < 1e-4 * abs(k) + 2e-6 for k in [*ref.kinks, *ref.lims])
    xs = [x for x in xs if not near(x)]
    exp = [float(ref.stress(x)) for x in xs]
    got = [float(law.get_stress(x)) for x in xs]
    sc_ = max(map(abs, exp)) + 1e-9
    ctx.close('law', got, exp, rtol=1e-8, atol=1e-9 * sc_, key=f'law stress:{label}:{name}',
              strains=xs, spec=sp)
    lims = law.get_ultimate_strain()
    ctx.close('law', list(lims), [lo, hi], rtol=1e-9, key=f'law limits:{label}:{name}', spec=sp)


# --------------------------------------------------------------- generation
def overrides(r, code, fck, prob=None):
    """Random user values (absolute)."""
    prob = pick(r, 0.0, 0.15, 0.4, 1.0) if prob is None else prob
    cand = {
        'fcm': fck + r.uniform(0.5, 7.9) if code == 'ec2_2023' else fck + r.uniform(0.5, 15),
        'fctm': r.uniform(0.05, 0.45) * fck,
        'eps_c1': r.uniform(1.2e-3, 2.4e-3), 'eps_cu1': r.uniform(3.05e-3, 9e-3),
        'k_sargin': r.uniform(1.3, 3.5),
        'eps_c2': r.uniform(1e-3, 2.4e-3), 'eps_cu2': r.uniform(3.05e-3, 9e-3),
        'n_parabolic_rectangular': r.uniform(1.05, 4.5),
        'gamma_c': r.uniform(1.0, 2.0),
    }
    if code == 'mc2010':
        cand |= {'fctkmin': r.uniform(0.5, 4), 'fctkmax': r.uniform(2, 8), 'Eci': r.uniform(1.2e4, 6e4),
                 'Gf': r.uniform(50, 300)}
    else:
        cand |= {'fctk_5': r.uniform(0.5, 4), 'fctk_95': r.uniform(2, 8), 'Ecm': r.uniform(1.2e4, 6e4)}
    if code != 'ec2_2023':
        cand |= {'eps_c3': r.uniform(1e-3, 2.2e-3), 'eps_cu3': r.uniform(3.05e-3, 9e-3),
                 'alpha_cc': r.uniform(0.8, 1.0)}
    if code == 'ec2_2023':
        cand['fcm'] = max(cand['fcm'], 20.5)
    one = pick(r, *cand)
    return {k: float(v) for k, v in cand.items() if r.random() < prob or (prob == 0.0 and k == one)}


UNSIGNED = ('gamma_c', 'alpha_cc', 'k_sargin', 'n_parabolic_rectangular')


def case_concrete(r, code):
    lo, hi = FCK[code]
    fck = float(pick(r, *[n for n in NODES if n <= hi])) if r.random() < 0.4 else float(r.uniform(lo, hi))
    if code == 'ec2_2023' and fck > 99.9:
        fck = 99.9
    u = overrides(r, code, fck)
    kw = {k: (v if k in UNSIGNED or r.random() < 0.7 else -v) for k, v in u.items()}
    extra = {'dev': 'CN', 'kE': 9500}
    if code == 'ec2_2023':
        if r.random() < 0.5:
            kw['strength_dev_class'] = extra['dev'] = pick(r, 'CS', 'CN', 'CR', 'slow', 'normal', 'Rapid', ' cs ')
        if r.random() < 0.5:
            kw['kE'] = extra['kE'] = float(r.uniform(5000, 13000))
    law = pick(r, *LAWS[code])
    if r.random() < 0.8:
        kw['constitutive_law'] = style(r, law)
    else:
        law = 'parabolarectangle'
    if r.random() < 0.5:
        kw['name'] = pick(r, 'abc', '', 'C99')
    if r.random() < 0.5:
        kw['density'] = float(r.uniform(1500, 3000)) * pick(r, 1, 1, -1)
    return fck, kw, u, extra, law


def like_concrete(r, code, case):
    """A concrete which differs from the given one in one value."""
    fck, kw, u, extra, law = case
    new = case_concrete(r, code)
    kw, u, extra = dict(kw), dict(u), dict(extra)
    how = int(r.integers(4))
    if how == 0 and u:
        k = pick(r, *sorted(u))
        if r.integers(2):
            del kw[k], u[k]
        else:
            kw[k] = u[k] = overrides(r, code, fck, 1.0)[k]
    elif how == 1:
        more = overrides(r, code, fck, 1.0)
        k = pick(r, *sorted(more))
        kw[k] = u[k] = more[k]
    elif how == 2:
        law = new[4]
        kw['constitutive_law'] = law
    else:
        fck = min(fck + pick(r, 0.3, -0.3, 0.05), 99.9) if fck > 13 and 'fcm' not in u else fck
    return fck, kw, u, extra, law


def make(ctx, code, how, cls, factory, args, kw):
    """Direct, by factory with the code given, by factory with the code set."""
    if how == 0:
        return ctx.call(f'{code} class', cls, **args, **kw)
    if how == 1:
        d = pick(ctx.rng, code, code.upper())
        return ctx.call(f'{code} factory', factory, design_code=d, **args, **kw)
    sc.set_design_code(code)
    try:
        return ctx.call(f'{code} factory set', factory, **args, **kw)
    finally:
        sc.set_design_code(None)


def value(o, name):
    v = getattr(o, name)
    return v() if callable(v) else v


def check_props(ctx, code, o, p, tag='property'):
    names = [k for k in p if k != 'E']
    r = ctx.rng
    seq = list(r.permutation(names)) + list(r.choice(names, 4))
    for nm in seq:
        v = value(o, str(nm))
        e = p[str(nm)]
        if code == 'mc2010' and nm in ('eps_c1', 'eps_cu1'):
            v = abs(v)  # the tabulated values are reported as negative
        ctx.close(tag, float(v), e, rtol=1e-9, key=f'{tag}:{code}:{nm}')


def label_name(kw, pre, v):
    return kw['name'] if 'name' in kw else f'{pre}{round(v):d}'


@M.family(quick=7500, thorough=24000, timeout=60)
def concretes(ctx):
    r = ctx.rng
    code = pick(r, *CODES)
    fck, kw, u, extra, law = case_concrete(r, code)
    ctx.note(code=code, fck=fck, kw=kw)
    p = ref_concrete(code, fck, u, **extra)
    how = int(r.integers(3))
    o = make(ctx, code, how, CONC[code], mconc.create_concrete, {'fck': fck}, kw)
    ctx.check('factory', type(o) is CONC[code], f'class:{code}', f'{type(o).__name__} for {code}')
    check_props(ctx, code, o, p)
    ctx.check('property', o.name == label_name(kw, 'C', fck), f'name:{code}', f'name {o.name!r}')
    ctx.close('property', o.density, abs(kw.get('density', 2400)), key=f'density:{code}')
    check_law(ctx, law, o.constitutive_law, spec(law, p), code)
    # another object of the same class neither sees nor changes this one
    second = like_concrete(r, code, (fck, kw, u, extra, law)) if r.integers(2) else case_concrete(r, code)
    fck2, kw2, u2, extra2, law2 = second
    o2 = make(ctx, code, int(r.integers(3)), CONC[code], mconc.create_concrete, {'fck': fck2}, kw2)
    p2 = ref_concrete(code, fck2, u2, **extra2)
    check_props(ctx, code, o2, p2, 'isolated')
    check_law(ctx, law2, o2.constitutive_law, spec(law2, p2), code)
    check_props(ctx, code, o, p, 'isolated')
    check_law(ctx, law, o.constitutive_law, spec(law, p), code)
    # the same material, made the other way
    o3 = make(ctx, code, (how + 1) % 3, CONC[code], mconc.create_concrete, {'fck': fck}, kw)
    same = all(value(o, k) == value(o3, k) for k in p if k != 'E')
    ctx.check('factory', same and o.name == o3.name and o.density == o3.density,
              f'factory:{code}', 'factory and direct construction differ')
    if code == 'ec2_2023':
        t_ref, t0, ref = (float(pick(r, 3, 28, 28.5, 56, 57, 90)), float(pick(r, 10, 60, 92, 365)),
                          float(r.uniform(25, 60)))
        ctx.close('property', o.fcd(t_ref=t_ref, t0=t0, fck_ref=ref),
                  fcd23(fck, p['gamma_c'], extra['dev'], t_ref, t0, ref), key='fcd(t_ref,t0,fck_ref)')
        ctx.close('property', o.fctd(t_ref=t_ref),
                  ref_ktt(t_ref, extra['dev']) * p['fctk_5'] / p['gamma_c'], key='fctd(t_ref)')
        ctx.close('property', o.fcd(), p['fcd'], key='fcd after other ages')
    ctx.sig(code, law, sorted(u), how)


@M.family(quick=1500, thorough=4000, timeout=60)
def all_laws(ctx):
    """Every keyword of the same concrete and steel, via object and keyword."""
    r = ctx.rng
    code = pick(r, *CODES)
    fck, kw, u, extra, _ = case_concrete(r, code)
    p = ref_concrete(code, fck, u, **extra)
    kw.pop('constitutive_law', None)
    ctx.note(code=code, fck=fck, kw=kw)
    for law in LAWS[code]:
        sp = spec(law, p)
        if sp['kind'] == 'popovics' and sp['Ec'] == sp['fc'] / sp['eps_c']:
            continue
        o = ctx.call(f'{code}:{law}', CONC[code], fck, constitutive_law=style(r, law), **kw)
        check_law(ctx, law, o.constitutive_law, sp, code)
        made = ctx.call('create law', create_constitutive_law, style(r, law), o)
        check_law(ctx, law, made, sp, code)
        obj = CONC[code](fck, constitutive_law=made, **kw)
        ctx.check('law', obj.constitutive_law is made, f'law object:{code}', 'given law object not used')
    ctx.sig(code, sorted(u), fck)


# ------------------------------------------------------------ reinforcement
def case_reinf(r, code):
    fyk = float(pick(r, 400, 500, 550)) if r.random() < 0.4 else float(r.uniform(200, 900))
    a = {'fyk': fyk, 'Es': float(pick(r, 2e5, r.uniform(1.8e5, 2.1e5))), 'ftk': fyk * float(pick(r, 1.0, 1.05, 1.08, r.uniform(1, 1.35))),
         'epsuk': float(pick(r, 0.025, 0.05, 0.075, r.uniform(0.012, 0.1)))}
    signed = {k: (v if r.random() < 0.85 else -v) for k, v in a.items()}
    kw = {}
    if r.random() < 0.6:
        kw['gamma_s'] = float(pick(r, 1.0, 1.15, 1.2, r.uniform(1, 1.6)))
    if code != 'ec2_2023' and r.random() < 0.6:
        kw['gamma_eps'] = float(pick(r, 1.0, 0.9, r.uniform(0.7, 1)))
    law = pick(r, *RLAWS)
    if r.random() < 0.8:
        kw['constitutive_law'] = style(r, law)
    else:
        law = 'elasticplastic'
    if r.random() < 0.5:
        kw['name'] = pick(r, 'abc', '', 'Reinforcement1')
    if r.random() < 0.5:
        kw['density'] = float(r.uniform(1500, 9000)) * pick(r, 1, 1, -1)
    return a, signed, kw, law


def ref_reinf(code, a, kw):
    gs = kw.get('gamma_s', 1.15)
    p = dict(a, gamma_s=gs, fyd=a['fyk'] / gs, ftd=a['ftk'] / gs, epsyk=a['fyk'] / a['Es'],
             epsyd=a['fyk'] / gs / a['Es'])
    if code == 'ec2_2023':
        p['epsud'] = a['epsuk'] / gs
    else:
        p['gamma_eps'] = kw.get('gamma_eps', 0.9)
        p['epsud'] = a['epsuk'] * p['gamma_eps']
    return p


def rspec(law, p):
    if law == 'elastic':
        return {'kind': 'elastic', 'E': p['Es']}
    Eh = (p['ftd'] - p['fyd']) / (p['epsud'] - p['epsyd']) if law == 'elasticplastic' else 0.0
    return {'kind': 'ep', 'E': p['Es'], 'fy': p['fyd'], 'Eh': Eh, 'eps_su': p['epsud']}


@M.family(quick=5000, thorough=16000, timeout=60)
def reinforcements(ctx):
    r = ctx.rng
    code = pick(r, *CODES)
    a, sg, kw, law = case_reinf(r, code)
    ctx.note(code=code, args=sg, kw=kw)
    p = ref_reinf(code, a, kw)
    how = int(r.integers(3))
    o = make(ctx, code, how, REIN[code], mreinf.create_reinforcement, sg, kw)
    ctx.check('factory', type(o) is REIN[code], f'class:{code}', f'{type(o).__name__} for {code}')
    check_props(ctx, code, o, p)
    ctx.check('property', o.name == label_name(kw, 'Reinforcement', sg['fyk']), f'name:{code}', f'name {o.name!r}')
    ctx.close('property', o.density, abs(kw.get('density', 7850)), key=f'density:{code}')
    check_law(ctx, law, o.constitutive_law, rspec(law, p), code)
    if law == 'elasticplastic':
        # the hardening branch ends at the design tensile strength
        e = p['epsud'] * (1 - 2e-4) - 3e-6
        f = p['fyd'] + (p['ftd'] - p['fyd']) * (e - p['epsyd']) / (p['epsud'] - p['epsyd'])
        ctx.close('law', float(o.constitutive_law.get_stress(e)), f, rtol=1e-9, key=f'ftd at epsud:{code}')
    a2, sg2, kw2, law2 = case_reinf(r, code)
    if r.integers(2):  # differs from the first in one value
        new = dict(a2, **{k: kw2[k] for k in kw2 if k.startswith('gamma')})
        k = pick(r, *sorted(new))
        a2, sg2, kw2, law2 = dict(a), dict(sg), dict(kw), law
        if k in a2:
            old = a2[k]
            a2[k] = sg2[k] = new[k]
            if a2['ftk'] < a2['fyk'] or a2['epsuk'] < 0.012:
                a2[k] = sg2[k] = old
        else:
            kw2[k] = new[k]
    o2 = make(ctx, code, int(r.integers(3)), REIN[code], mreinf.create_reinforcement, sg2, kw2)
    check_props(ctx, code, o2, ref_reinf(code, a2, kw2), 'isolated')
    check_law(ctx, law2, o2.constitutive_law, rspec(law2, ref_reinf(code, a2, kw2)), code)
    check_props(ctx, code, o, p, 'isolated')
    o3 = make(ctx, code, (how + 1) % 3, REIN[code], mreinf.create_reinforcement, sg, kw)
    ctx.check('factory', all(value(o, k) == value(o3, k) for k in p) and o.name == o3.name
              and o.density == o3.density, f'factory:{code}', 'factory and direct construction differ')
    for nm in RLAWS:
        q = ctx.call(f'{code}:{nm}', REIN[code], constitutive_law=style(r, nm), **sg,
                     **{k: v for k, v in kw.items() if k != 'constitutive_law'})
        check_law(ctx, nm, q.constitutive_law, rspec(nm, p), code)
    ctx.sig(code, law, sorted(kw), a['fyk'])


# ---------------------------------------------------------------- rejection
@M.family(quick=1500, thorough=3000, timeout=60)
def rejections(ctx):
    r = ctx.rng
    code = pick(r, *CODES)
    cls, fac = CONC[code], mconc.create_concrete
    fck = float(r.uniform(20, 80))
    kw = {k: v for k, v in overrides(r, code, fck, 0.2).items()}
    ctx.note(code=code, fck=fck, kw=kw)

    def bad(label, exc=(ValueError,), **b):
        q = {**kw, **b}
        if r.integers(2):
            ctx.rejects('reject', f'{code}:{label}', cls, fck, exc=exc, **q)
        else:
            ctx.rejects('reject', f'{code}:{label}', fac, fck, design_code=code, exc=exc, **q)

    bad('fcm<=fck', fcm=pick(r, fck, fck - 1e-6, fck * float(r.uniform(0.1, 1))))
    bad('k_sargin<0', k_sargin=-float(r.uniform(1e-6, 3)))
    bad('n<0', n_parabolic_rectangular=-float(r.uniform(1e-6, 3)))
    bad('existing', existing=True, exc=(NotImplementedError, ValueError))
    bad('initial strain and stress', initial_strain=-1e-4, initial_stress=-1.0)
    bad('unknown law', constitutive_law=pick(r, '', 'x', 'parabola', 'parabola-rectangle', 'initial strain',
                                             'sargin ', 'userdefined', '__elastic__'))
    bad('law of steel by name', constitutive_law=pick(r, 'elasticplastic', 'elasticperfectlyplastic', 'initialstrain'))
    bad('law of steel', constitutive_law=ElasticPlastic(2e5, 400, 0.0, 0.05))
    if code == 'ec2_2023':
        bad('bilinear', constitutive_law=pick(r, 'bilinearcompression', 'BilinearCompression'))
        bad('dev class', strength_dev_class=pick(r, '', 'C', 'fast', 'CSN', 'N', 'R'))
        bad('gamma_c<=0', gamma_c=-float(r.uniform(0.01, 2)),
            constitutive_law=pick(r, 'parabolarectangle', 'elastic', 'sargin', 'popovics'))
        bad('gamma_c<1', gamma_c=float(r.uniform(0.05, 0.999)))
        ctx.rejects('reject', 'ec2_2023:fck<12', cls, float(r.uniform(1, 11.9)))
        ctx.rejects('reject', 'ec2_2023:kE', lambda: cls(fck, kE=pick(r, 100.0, 4999.0, 13001.0)).Ecm)
    if code == 'mc2010':
        low = pick(r, float(r.uniform(1, 11.9)), float(r.uniform(120.1, 300)))
        ctx.rejects('reject', 'mc2010:eps_c1 scope', lambda: cls(low).eps_c1)
        ctx.rejects('reject', 'mc2010:sargin scope', cls, low, constitutive_law='sargin')
    a, sg, kr, _ = case_reinf(r, code)
    kr.pop('constitutive_law', None)

    def badr(label, **b):
        q = {**sg, **kr, **b}
        if r.integers(2):
            ctx.rejects('reject', f'{code}:reinf {label}', REIN[code], **q)
        else:
            ctx.rejects('reject', f'{code}:reinf {label}', mreinf.create_reinforcement, design_code=code, **q)

    badr('gamma_s<1', gamma_s=float(r.uniform(0.05, 0.999)))
    badr('initial strain and stress', initial_strain=1e-4, initial_stress=1.0)
    badr('concrete law', constitutive_law=pick(r, 'parabolarectangle', 'sargin', 'popovics', 'bilinearcompression'))
    badr('concrete law object', constitutive_law=pick(r, ParabolaRectangle(30), Sargin(30), Popovics(30),
                                                      BilinearCompression(30, 2e-3, 3.5e-3)))
    badr('unknown law', constitutive_law=pick(r, '', 'x', 'elastic plastic', 'plastic', 'userdefined'))
    if code != 'ec2_2023':
        badr('gamma_eps>1', gamma_eps=float(r.uniform(1.001, 2)))
    # laws of neither or both
    for law in (Elastic(3e4), UserDefined([-0.01, 0, 0.01], [-20, 0, 20])):
        c = ctx.call('law for both', cls, fck, constitutive_law=law, **kw)
        ctx.check('law', c.constitutive_law is law, 'law object', 'given law not used')
        s = ctx.call('law for both', REIN[code], constitutive_law=law, **sg, **kr)
        ctx.check('law', s.constitutive_law is law, 'law object', 'given law not used')
    ctx.sig(code, round(fck))


SUSPECT = {'eps_c1': 0.1, 'eps_cu1': 0.1, 'eps_c2': 0.1, 'eps_cu2': 0.1, 'eps_c3': 0.1, 'eps_cu3': 0.1}


@M.family(quick=6000, thorough=8000, timeout=60)
def suspects(ctx):
    """Warnings exactly for values of suspicious magnitude."""
    r = ctx.rng
    code = pick(r, *CODES)
    fck = float(r.uniform(20, 80))
    names = [n for n in SUSPECT if code != 'ec2_2023' or n not in ('eps_c3', 'eps_cu3')]
    names += ['n_parabolic_rectangular'] + (['fctm'] if code != 'ec2_2023' else []) + (['Eci'] if code == 'mc2010' else [])
    nm = pick(r, *names)
    big = bool(r.integers(2))
    if nm == 'n_parabolic_rectangular':
        v = pick(r, 5.0, float(r.uniform(5, 20))) if big else float(r.uniform(1, 4.999))
    elif nm == 'fctm':
        v = fck * float(r.uniform(0.5001, 2) if big else r.uniform(0.01, 0.4999))
    elif nm == 'Eci':
        v = float(pick(r, r.uniform(10, 9999), r.uniform(100001, 1e7)) if big else r.uniform(10001, 99999))
    else:
        v = float(pick(r, 0.1, r.uniform(0.1, 5)) if big else r.uniform(1e-4, 0.0999))
    if nm != 'n_parabolic_rectangular' and r.integers(3) == 0:
        v = -v
    ctx.note(code=code, name=nm, value=v, fck=fck)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        o = ctx.call(code, CONC[code], fck, **{nm: v}, constitutive_law='elastic')
    w = [x for x in w if x.category in (UserWarning, RuntimeWarning)]
    ctx.check('warn', bool(w) == big, f'warning:{code}:{nm}',
              f'{len(w)} warnings, expected {"some" if big else "none"}')
    ctx.close('property', float(abs(getattr(o, nm))), abs(v), key=f'suspect value:{code}:{nm}')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ctx.call(code, CONC[code], fck)
    ctx.check('warn', not [x for x in w if x.category in (UserWarning, RuntimeWarning)],
              f'warning:{code}:plain', 'warning without user values')
    ctx.sig(code, nm, big)


# -------------------------------------------------------------------- basic
@M.family(quick=1500, thorough=4000, timeout=60)
def basics(ctx):
    r = ctx.rng
    E, fy, rho = float(r.uniform(1e3, 3e5)), float(r.uniform(10, 900)), float(r.uniform(500, 9000)) * pick(r, 1, -1)
    ey = fy / E
    su = pick(r, None, ey * float(r.uniform(1.5, 50)))
    Eh = pick(r, 0.0, E * float(r.uniform(0, 0.2)))
    nm = pick(r, None, 'xy')
    ctx.note(E=E, fy=fy, Eh=Eh, su=su)
    m = ctx.call('ElasticPlasticMaterial', basic.ElasticPlasticMaterial, E=E, fy=fy, density=rho, Eh=Eh, eps_su=su, name=nm)
    ctx.check('basic', (m.E, m.fy, m.Eh, m.eps_su, m.name, m.density) ==
              (E, fy, Eh, su, nm or 'ElasticPlasticMaterial', abs(rho)), 'ElasticPlasticMaterial', 'properties')
    sp = {'kind': 'ep', 'E': E, 'fy': fy, 'Eh': Eh, 'eps_su': su}
    check_law(ctx, 'elasticplastic', m.constitutive_law, sp, 'basic')
    us = pick(r, None, float(r.uniform(1e-3, 0.1)), (-float(r.uniform(1e-3, 0.1)), float(r.uniform(1e-3, 0.1))))
    m = ctx.call('ElasticMaterial', basic.ElasticMaterial, E=E, density=rho, ultimate_strain=us, name=nm)
    ctx.check('basic', (m.E, m.name, m.density) == (E, nm or 'ElasticMaterial', abs(rho)), 'ElasticMaterial', 'properties')
    check_law(ctx, 'elastic', m.constitutive_law, {'kind': 'elastic', 'E': E, 'eps_u': us}, 'basic')
    code = pick(r, *CODES)
    fck, kw, u, extra, law = case_concrete(r, code)
    sp = spec(law, ref_concrete(code, fck, u, **extra))
    if usable(sp):
        o = CONC[code](fck, **kw)
        e = ctx.call('from_material', basic.ElasticMaterial.from_material, o)
        k0 = float(ref_law(sp).tangent(0.0))
        if sp['kind'] == 'popovics':
            k0 = sp['Ec']
        ctx.close('basic', e.E, k0, rtol=1e-8, key=f'from_material:{law}')
        ctx.check('basic', e.density == o.density and e.name == o.name + '_elastic', 'from_material',
                  'name or density', name=e.name)
        ctx.close('basic', e.constitutive_law.get_stress(1e-3), k0 * 1e-3, rtol=1e-8, key='from_material law')
    g = ctx.call('GenericMaterial', basic.GenericMaterial, density=rho, constitutive_law=m.constitutive_law, name=nm)
    ctx.check('basic', g.constitutive_law is m.constitutive_law and g.name == (nm or 'GenericMaterial')
              and g.density == abs(rho), 'GenericMaterial', 'properties')
    names = get_constitutive_laws_list()
    ctx.check('basic', set(TYPES) | {'initialstrain'} == set(names), 'law list', 'advertised laws', names=names)
    ctx.sig(round(E), us is None, su is None, law)
