"""C12: interaction domains consist of ultimate strain planes and their forces."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import desc, loose_nonpoly, refs_of, tol_vec, known_truncation
from .c10 import case, limits_of, make, n_between, theta_of, utilisation

M = Module(
    'C12',
    'random reinforced concrete, composite and steel sections x theta x counts '
    'and spacing types per field x total count x complete domains x num_theta '
    'x integrator; oracle: every row re-integrated, direction, ultimate '
    'strains, labels from an independent classification, counts, ends, '
    'N-M-M = collection of N-M, M-M = collection of bending strengths; '
    'non-trivial = distinct (section, options)',
    required={'mon:forces': 600, 'mon:reference': 150, 'mon:direction': 60, 'mon:count': 100,
              'mon:labels': 60, 'mon:ultimate': 200, 'mon:ends': 60, 'mon:collection': 30,
              'mon:mm': 30, 'mon:accessors': 50},
)
DEF = (1, 2, 15, 10, 3, 4)
TYPES = ('linear', 'geometric', 'quadratic')


def options(r, small=True):
    kw = {}
    num = list(DEF)
    how = gen.pick(r, ['default', 'nums', 'nums', 'total', 'both'])
    if how in ('nums', 'both'):
        for i in range(6):
            if r.integers(3):
                num[i] = int(r.integers(1, 7))
                kw[f'num_{i + 1}'] = num[i]
    if how in ('total', 'both'):
        kw['num'] = int(r.integers(1, 60))
        num = [max(int(kw['num'] / 35 * d), n) for d, n in zip(DEF, num)]
    types = ['linear', 'linear', 'geometric', 'linear', 'linear', 'linear']
    if r.integers(2):
        for i in range(6):
            if r.integers(2):
                types[i] = gen.pick(r, TYPES)
                kw[f'type_{i + 1}'] = gen.pick(r, [types[i], types[i], types[i].upper(), types[i].capitalize()])
    return how, num, types, kw


def rows(ctx, tag, spec, integrator, sec, dom, w, laws, stride=1):
    """Forces of the rows are those of their planes; ultimate strains."""
    calc = build.section(spec, 'marin').section_calculator if integrator == 'marin' else sec.section_calculator
    refs = refs_of(spec)
    S, F = np.asarray(dom.strains, float), np.asarray(dom.forces, float)
    rc = any(s['concrete'] for s in spec['surfs'])
    for i in range(0, len(S), stride):
        pl = [float(v) for v in S[i]]
        back = np.array(ctx.call('integrate', calc.integrate_strain_profile, pl), float)
        tv = tol_vec(spec, pl, refs)
        ctx.close('forces', F[i], back, 1e-8, 100 * tv + 1e-6 * np.array([1, spec['size'], spec['size']]),
                  key=tag + ':forces', msg=f'row {i} {pl}', **w)
        if integrator == 'marin' and i % 5 == 0:
            inner = [v * (1 - 1e-9) for v in pl]
            exp, mag = ref.section_integral(refs[0], refs[1], inner)
            t = 100 * tv + loose_nonpoly(spec, refs) + 2e-5 * mag
            if np.any(np.abs(F[i] - exp) > t) and known_truncation(spec, refs[1], pl, F[i], t):
                ctx.ev('known_truncation')
            else:
                ctx.close('reference', F[i], exp, 0, t, key=tag + ':reference', msg=f'row {i} {pl}', **w)
        if rc:
            u = utilisation(spec, laws, pl)
            ctx.check('ultimate', u <= 1 + 1e-6, key=tag + ':beyond-ultimate', msg=f'row {i} utilisation {u} {pl}', **w)


def direction(ctx, tag, S, theta, w):
    along = S[:, 1] * math.cos(theta) + S[:, 2] * math.sin(theta)
    cross = -S[:, 1] * math.sin(theta) + S[:, 2] * math.cos(theta)
    ctx.check('direction', np.all(np.abs(cross) <= 1e-12 * (np.abs(along) + 1e-9)) and np.all(along <= 1e-15),
              key=tag + ':direction', msg=f'{along} {cross}', **w)


def simple(spec):
    return (len(spec['surfs']) == 1 and spec['surfs'][0]['concrete'] and spec['points']
            and len({p['mat'] for p in spec['points']}) == 1)


def classify(ctx, tag, spec, laws, S, field, theta, w):
    """Independent description of the fields for one concrete and one steel."""
    c, s = math.cos(theta), math.sin(theta)
    zr = lambda y, z: -s * y + c * z  # noqa: E731
    ext = np.array(spec['surfs'][0]['ext'])
    zc = zr(ext[:, 0], ext[:, 1])
    zb = np.array([zr(p['y'], p['z']) for p in spec['points']])
    if zb.min() >= zc.max():
        return
    o = build.law(spec['mats'][spec['surfs'][0]['mat']]['law'])
    st = build.law(spec['mats'][spec['points'][0]['mat']]['law'])
    ecu, ecy = o.get_ultimate_strain()[0], o.get_ultimate_strain(yielding=True)[0]
    esu, esy = st.get_ultimate_strain()[1], st.get_ultimate_strain(yielding=True)[1]
    if esu >= 0.2 or ecy <= ecu * 1.0000001:
        return
    k = S[:, 1] * c + S[:, 2] * s
    et, es, eb = (S[:, 0] + k * z for z in (zc.max(), zb.min(), zc.min()))
    zp = zc.max() - (1 - ecy / ecu) * (zc.max() - zc.min())
    ep = S[:, 0] + k * zp
    t = 1e-9
    # the bar closest to the bottom edge may be inside of a hollow cross
    # section: the steel strain governs anyway
    ok = {
        1: (np.abs(es - esu) <= t) & (et >= -t) & (et <= esu + t),
        2: (np.abs(es - esu) <= t) & (et <= t) & (et >= ecu - t),
        3: (np.abs(et - ecu) <= t) & (es <= esu + t) & (es >= esy - t),
        4: (np.abs(et - ecu) <= t) & (es <= esy + t) & (es >= -t),
        5: (np.abs(et - ecu) <= t) & (es <= t) & (eb >= -t),
        6: (np.abs(ep - ecy) <= t) & (eb <= t) & (et >= ecu - t),
    }
    for i, f in enumerate(field):
        ctx.check('labels', bool(ok[int(f)][i]), key=f'{tag}:label:{int(f)}',
                  msg=f'row {i} plane {S[i]} top {et[i]} steel {es[i]} bottom {eb[i]} (ecu {ecu} ecy {ecy} esu {esu} esy {esy})', **w)


def spacing(ctx, spec, S, num, types, theta, w):
    """Linearly spaced fields are equally spaced and do not repeat planes."""
    k = S[:, 1] * math.cos(theta) + S[:, 2] * math.sin(theta)
    pos = 0
    for i in range(5):
        if types[i] == 'linear' and num[i] >= 3:
            d = np.diff(S[pos:pos + num[i], 0])
            dk = np.diff(k[pos:pos + num[i]])
            # (another material may govern the axial strain)
            if simple(spec):
                ctx.close('spacing', d, np.full_like(d, d.mean()), 1e-6, 1e-12, key='spacing:eps', msg=f'field {i + 1}', **w)
            ctx.close('spacing', dk, np.full_like(dk, dk.mean()), 1e-6, 1e-16, key='spacing:curvature', msg=f'field {i + 1}', **w)
        pos += num[i]


@M.family(660, 2200)
def nm(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    laws = [limits_of(build.law(m['law'])) for m in spec['mats']]
    theta = theta_of(r)
    how, num, types, kw = options(r)
    complete = bool(r.integers(3) == 0)
    if complete or r.integers(2):
        kw['complete_domain'] = complete
    w = dict(spec=spec, theta=theta, kw=kw, integrator=integrator)
    dom = ctx.call('nm', calc.calculate_nm_interaction_domain, theta, **kw)
    S, F, field = np.asarray(dom.strains, float), np.asarray(dom.forces, float), np.asarray(dom.field_num)
    exp = np.repeat(np.arange(1, 7), num)
    m = len(exp)
    if complete:
        exp = np.concatenate((exp, exp[-2:0:-1]))
    ctx.check('count', len(S) == len(F) == len(field) == len(exp) and np.array_equal(field, exp), key='count',
              msg=f'{len(S)} {len(F)} {field} expected {exp}', **w)
    if len(S) != len(exp):
        return
    ctx.check('count', dom.theta == theta, key='theta-echo', **w)
    direction(ctx, 'nm', S[:m], theta, w)
    if complete:
        direction(ctx, 'nm+pi', S[m:], theta + math.pi, w)
    rows(ctx, 'nm', spec, integrator, sec, dom, w, laws, stride=1 if m < 20 else 3)
    for f, a in (('n', F[:, 0]), ('m_y', F[:, 1]), ('m_z', F[:, 2]), ('e_a', S[:, 0]), ('k_y', S[:, 1]), ('k_z', S[:, 2])):
        ctx.check('accessors', np.array_equal(getattr(dom, f), a), key='accessor', msg=f, **w)
    # ends: uniform strains
    nmin, nmax = float(calc.n_min), float(calc.n_max)
    sp = abs(nmax - nmin)
    ctx.close('ends', S[0, 1:] * spec['size'], [0, 0], 0, 1e-12, key='first-not-uniform', msg=f'{S[0]}', **w)
    ctx.close('ends', F[0, 0], nmax, 1e-9, 1e-9 * sp, key='first-not-n_max', **w)
    ctx.close('ends', S[m - 1, 1:] * spec['size'], [0, 0], 0, 1e-12, key='last-not-uniform', msg=f'{S[m - 1]}', **w)
    rc = any(s['concrete'] for s in spec['surfs'])
    if not rc:
        ctx.close('ends', F[m - 1, 0], nmin, 1e-9, 1e-9 * sp, key='last-not-n_min', **w)
    else:
        # uniform compression at the strain of the strength of the concrete
        peaks = [float(build.law(spec['mats'][s['mat']]['law']).get_ultimate_strain(yielding=True)[0])
                 for s in spec['surfs'] if s['concrete']]
        ctx.check('ends', any(abs(S[m - 1, 0] - p) <= 1e-12 for p in peaks),
                  key='last-strain', msg=f'{S[m - 1, 0]} {peaks}', **w)
    if simple(spec):
        classify(ctx, 'nm', spec, laws, S[:m], field[:m], theta, w)
        if complete:
            classify(ctx, 'nm+pi', spec, laws, S[m:], field[m:], theta + math.pi, w)
    spacing(ctx, spec, S[:m], num, types, theta, w)
    ctx.sig(desc(spec), round(theta, 2), how, tuple(types), complete, integrator)
    ctx.note(desc=desc(spec), kw=kw, theta=theta)


@M.family(150, 500)
def nmm(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    laws = [limits_of(build.law(m['law'])) for m in spec['mats']]
    how, num, types, kw = options(r)
    nt = int(r.integers(1, 7))
    if how == 'default' and nt > 3:
        nt = 3
    w = dict(spec=spec, num_theta=nt, kw=kw, integrator=integrator)
    dom = ctx.call('nmm', calc.calculate_nmm_interaction_domain, nt, **kw)
    S, F, field = np.asarray(dom.strains, float), np.asarray(dom.forces, float), np.asarray(dom.field_num)
    m = sum(num)
    ctx.check('count', S.shape == F.shape == (m * nt, 3) and dom.num_theta == nt, key='nmm-count', msg=f'{S.shape} {m}x{nt}', **w)
    ctx.check('count', np.array_equal(field, np.tile(np.repeat(np.arange(1, 7), num), nt)), key='nmm-fields', **w)
    refs = refs_of(spec)
    for j, th in enumerate(np.linspace(0, 2 * np.pi, nt)):
        d = ctx.call('nm', calc.calculate_nm_interaction_domain, th, **kw)
        ctx.close('collection', S[j * m:(j + 1) * m], d.strains, 1e-12, 1e-18, key='nmm-strains', **w)
        tv = np.max([tol_vec(spec, p, refs) for p in S[j * m:(j + 1) * m]], axis=0)
        ctx.close('collection', F[j * m:(j + 1) * m], d.forces, 1e-9, 100 * tv, key='nmm-forces', **w)
        direction(ctx, 'nmm', S[j * m:(j + 1) * m], th, w)
    rows(ctx, 'nmm', spec, integrator, sec, dom, w, laws, stride=max(1, len(S) // 12))
    for f, a in (('n', F[:, 0]), ('m_y', F[:, 1]), ('m_z', F[:, 2]), ('e_a', S[:, 0]), ('k_y', S[:, 1]), ('k_z', S[:, 2])):
        ctx.check('accessors', np.array_equal(getattr(dom, f), a), key='accessor', msg=f, **w)
    ctx.sig('nmm', desc(spec), nt, how, integrator)


@M.family(150, 500)
def mm(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    kw = {'mesh_size': calc.mesh_size} if integrator == 'fiber' else {}
    mode, n = n_between(r, float(calc.n_min), float(calc.n_max))
    nt = int(r.integers(1, 8))
    w = dict(spec=spec, num_theta=nt, n=n, integrator=integrator)
    dom, ex = ctx.attempt('mm', calc.calculate_mm_interaction_domain, n, nt)
    if ex is not None:
        if mode in ('edge', 'high', 'low') and isinstance(ex, ValueError):
            ctx.ev('mm_refused')  # see C10
            return
        ctx.fail('mm-raises', repr(ex), **w)
        return
    th = np.linspace(0, 2 * np.pi, nt)
    S, F = np.asarray(dom.strains, float), np.asarray(dom.forces, float)
    ctx.check('count', S.shape == F.shape == (nt, 3) and np.allclose(dom.theta, th, rtol=1e-15, atol=0) and dom.num_theta == nt,
              key='mm-count', msg=f'{S.shape} {dom.theta}', **w)
    refs = refs_of(spec)
    fresh = build.section(spec, integrator, **kw).section_calculator
    for i, t in enumerate(th):
        b = ctx.call('bending_strength', fresh.calculate_bending_strength, t, n)
        pl = [b.eps_a, b.chi_y, b.chi_z]
        tv = tol_vec(spec, pl, refs)
        tol = 1e-2 + 100 * tv
        tol[1:] += 1e-2 * spec['size'] * 10
        ctx.close('mm', F[i], [n, b.m_y, b.m_z], 1e-9, tol + 1e-9 * abs(calc.n_min), key='mm-forces', msg=f'theta {t}', **w)
        ctx.close('mm', S[i] * [1, spec['size'], spec['size']], np.array(pl) * [1, spec['size'], spec['size']], 1e-9, 1e-9,
                  key='mm-strains', msg=f'theta {t}', **w)
    for f, a in (('n', F[:, 0]), ('m_y', F[:, 1]), ('m_z', F[:, 2]), ('e_a', S[:, 0]), ('k_y', S[:, 1]), ('k_z', S[:, 2])):
        ctx.check('accessors', np.array_equal(getattr(dom, f), a), key='accessor', msg=f, **w)
    ctx.sig('mm', desc(spec), nt, mode, integrator)
