"""C07: initial strain / initial stress and parallel compositions."""
import math

import numpy as np

from structuralcodes.geometry import SurfaceGeometry
from structuralcodes.materials.basic import (
    ElasticMaterial, ElasticPlasticMaterial, GenericMaterial,
)
from structuralcodes.materials.concrete import create_concrete
from structuralcodes.materials.constitutive_laws import InitialStrain, Parallel
from structuralcodes.materials.reinforcement import create_reinforcement
from structuralcodes.sections import GenericSection

from .. import build, gen, ref
from ..core import Module
from .c02 import kinds, known_truncation, loose_nonpoly, refs_of, tol_vec
from .c05 import grid, near, scale

M = Module(
    'C07',
    'random wrapped laws (nested to depth 3), initial strains/stresses, weights '
    'and strains; differential against the wrapped laws, an independent law '
    'oracle, materials of every kind, and sections in both integrators; '
    'non-trivial = distinct (composition, monitor) with non-zero response',
    required={'mon:shift': 300, 'mon:constant': 60, 'mon:sum': 300,
              'mon:limits': 300, 'mon:initial_stress': 150, 'mon:oracle': 300,
              'mon:section': 150, 'mon:wrapped': 20, 'mon:rejects': 20},
)


def arr(x, n):
    a = np.asarray(x, float)
    return np.broadcast_to(a, (n,)) if a.ndim == 0 else a


def forms(ctx, label, fn, e, exp, tol, key):
    """Array, list and scalar forms all give exp."""
    r = ctx.rng
    for arg in (np.array(e), [float(v) for v in e]):
        got = ctx.call(label, fn, arg)
        if not ctx.check('shape', np.shape(got) == (len(e),), key='shape:' + key, msg=f'{np.shape(got)}'):
            return
        bad = np.abs(np.asarray(got, float) - exp) > tol
        ctx.check(key.split(':')[0], not bad.any(), key=key,
                  msg=f'at {np.asarray(e)[bad][:3]} got {np.asarray(got)[bad][:3]} expected {exp[bad][:3]}')
    for i in r.choice(len(e), min(5, len(e)), replace=False):
        s = ctx.call(label + '_scalar', fn, float(e[i]))
        ctx.check(key.split(':')[0], np.ndim(s) == 0 and abs(s - exp[i]) <= np.broadcast_to(tol, exp.shape)[i],
                  key=key + ':scalar', msg=f'{s} expected {exp[i]} at {e[i]!r}')


def tangents(law, e):
    return np.asarray(law.get_tangent(np.array(e)), float)


@M.family(9000, 60000)
def initial(ctx):
    r = ctx.rng
    inner = gen.law_any(r, 1)
    rl = ref.ref_law(inner)
    span = min(abs(rl.lims[0]), abs(rl.lims[1]), 0.05)
    e0 = gen.pick(r, [0.0, gen.uni(r, -0.9, 0.9) * span, gen.uni(r, -1.3, 1.3) * span])
    compat = bool(r.integers(4))
    law = ctx.call('construct', build.law, inner)
    w = ctx.call('InitialStrain', InitialStrain, law, e0, *([] if compat and r.integers(2) else [compat]))
    ctx.note(law=inner, e0=e0, compat=compat)
    e = grid(r, rl, 12) - e0
    S = scale(rl)
    if compat:
        exp = np.asarray(ctx.call('get_stress', law.get_stress, np.array(e + e0)), float)
        forms(ctx, 'get_stress', w.get_stress, e, exp, 1e-9 * S + 1e-12 * np.abs(exp), 'shift:stress')
        kn = near(e + e0, rl.kinks, 1e-9, 1e-12)
        et = e[~kn]
        ext = tangents(law, et + e0)
        E = max(float(np.max(np.abs(ext), initial=0)), 1e-9)
        forms(ctx, 'get_tangent', w.get_tangent, et, ext, 1e-6 * E, 'shift:tangent')
        # independent oracle, away from the snapping bands
        m = ~near(e + e0, (*rl.snaps, *rl.kinks)) if inner['kind'] != 'elastic' else np.ones(len(e), bool)
        ctx.close('oracle', np.asarray(w.get_stress(np.array(e)), float)[m], rl.stress(e + e0)[m],
                  1e-9, 1e-9 * S, key='oracle:init', strains=e[m])
    else:
        s0 = float(np.real(np.ravel(ctx.call('get_stress', law.get_stress, float(e0)))[0]))
        forms(ctx, 'get_stress', w.get_stress, e, np.full(len(e), s0), 1e-12 * S, 'constant:stress')
        E = float(np.max(np.abs(rl.tangent(np.array([-1e-7, 0.0, 1e-7])))))
        t = np.asarray(ctx.call('get_tangent', w.get_tangent, np.array(e)), float)
        ctx.check('constant', t.shape == e.shape and np.all(np.abs(t) <= 1e-4 * max(E, 1e-9)),
                  key='constant:tangent', msg=f'{t} of {E}')
        if not near([e0], (*rl.snaps, *rl.kinks))[0]:
            ctx.close('oracle', s0, float(rl.stress(np.array([e0]))[0]), 1e-9, 1e-9 * S, key='oracle:const')
    for y in (False, True):
        a = ctx.call('lim', w.get_ultimate_strain, yielding=y)
        b = ctx.call('lim', law.get_ultimate_strain, yielding=y)
        ctx.close('limits', a, (b[0] - e0, b[1] - e0), 1e-12, 1e-15, key='limits:init')
    ctx.check('wrapped', w.wrapped_law is law and w.strain_compatibility is compat, key='wrapped:init')
    ctx.sig('init', kinds(inner), compat, float(np.sign(e0)))


@M.family(7500, 50000)
def parallel(ctx):
    r = ctx.rng
    n = int(r.integers(1, 4))
    specs = [gen.law_any(r, 1) for _ in range(n)]
    laws = [ctx.call('construct', build.law, s) for s in specs]
    wt = [gen.uni(r, 0.05, 3) for _ in range(n)] if r.integers(2) else None
    if wt and r.integers(4) == 0:
        wt = [int(math.ceil(v)) for v in wt]
    p = ctx.call('Parallel', Parallel, laws, wt) if wt else ctx.call('Parallel', Parallel, laws)
    ctx.note(laws=specs, weights=wt)
    W = wt or [1.0] * n
    sp = dict(kind='par', laws=specs, w=wt)
    rl = ref.ref_law(sp)
    e = grid(r, rl, 10)
    parts = [arr(np.real(law.get_stress(np.array(e))), len(e)) for law in laws]
    exp = sum(a * q for a, q in zip(W, parts))
    S = sum(a * np.max(np.abs(q)) for a, q in zip(W, parts)) + 1e-12
    forms(ctx, 'get_stress', p.get_stress, e, exp, 1e-10 * S, 'sum:stress')
    kn = near(e, rl.kinks, 1e-9, 1e-12)
    et = e[~kn]
    pt = [tangents(law, et) for law in laws]
    ext = sum(a * q for a, q in zip(W, pt))
    E = sum(a * np.max(np.abs(q), initial=0) for a, q in zip(W, pt)) + 1e-12
    forms(ctx, 'get_tangent', p.get_tangent, et, ext, 1e-10 * E, 'sum:tangent')
    m = ~near(e, (*rl.snaps, *rl.kinks))
    ctx.close('oracle', np.asarray(p.get_stress(np.array(e)), float)[m], rl.stress(e)[m],
              1e-8, 1e-8 * S, key='oracle:par', strains=e[m])
    for y in (False, True):
        lim = [q.get_ultimate_strain(yielding=y) for q in laws]
        ctx.close('limits', ctx.call('lim', p.get_ultimate_strain, yielding=y),
                  (min(q[0] for q in lim), max(q[1] for q in lim)), 1e-12, key='limits:par')
    ctx.check('wrapped', list(p.wrapped_laws) == laws and np.allclose(p.weights, W), key='wrapped:par')
    # secant of a composed law
    es = e[np.abs(e) > 1e-9][:6]
    ctx.close('sum', ctx.call('get_secant', p.get_secant, np.array(es)), np.asarray(p.get_stress(np.array(es)), float) / es,
              1e-9, 1e-9 * E, key='sum:secant')
    if r.integers(4) == 0:
        i = [0, 1, -1]
        ctx.close('sum', ctx.call('get_stress', p.get_stress, i), p.get_stress(np.array(i, float)), 1e-12, key='sum:int')
    ctx.sig('par', [kinds(s) for s in specs], wt is None)


def material(ctx, kw):
    r = ctx.rng
    k = gen.pick(r, ['generic', 'elastic', 'ep', 'conc', 'reinf', 'reinf'])
    if k == 'elastic':
        E = gen.logu(r, 1e3, 2.2e5) * gen.pick(r, [1, 1, 1e6])  # MPa or Pa
        return k, (lambda **q: ElasticMaterial(E=E, density=7850, **q)), 0.004 * E, E
    if k == 'ep':
        u = gen.pick(r, [1.0, 1.0, 1e6])
        E, fy = 2e5 * u, gen.uni(r, 200, 1800) * u
        Eh = gen.pick(r, [0.0, 1000.0 * u])
        return k, (lambda **q: ElasticPlasticMaterial(E=E, fy=fy, density=7850, Eh=Eh, eps_su=0.06, **q)), fy, E
    if k == 'conc':
        fck = gen.uni(r, 15, 80)
        code = gen.pick(r, ['ec2_2004', 'ec2_2023', 'mc2010'])
        law = gen.pick(r, ['elastic', 'parabolarectangle', 'sargin'])
        mk = lambda **q: create_concrete(fck=fck, design_code=code, constitutive_law=law, **q)  # noqa: E731
        return f'{k}:{law}', mk, -0.4 * fck, 3e4
    if k == 'reinf':
        fyk = gen.uni(r, 400, 1700)
        code = gen.pick(r, ['ec2_2004', 'ec2_2023', 'mc2010'])
        law = gen.pick(r, ['elastic', 'elasticplastic', 'elasticperfectlyplastic'])
        mk = lambda **q: create_reinforcement(  # noqa: E731
            fyk=fyk, Es=200000, ftk=1.1 * fyk, epsuk=0.05, design_code=code, constitutive_law=law, **q)
        return f'{k}:{law}', mk, fyk / 1.15, 2e5
    sp = gen.law_any(r, 1)
    rl = ref.ref_law(sp)
    g = np.linspace(-1e-4, 1e-4, 5)
    return f'generic:{kinds(sp).split("(")[0]}', (
        lambda **q: GenericMaterial(density=2000, constitutive_law=build.law(sp), **q)), \
        float(rl.stress(g[-1:])[0]) or float(rl.stress(g[:1])[0]), float(rl.tangent(np.array([1e-9]))[0])


@M.family(4500, 30000)
def materials(ctx):
    r = ctx.rng
    kind, mk, smax, E = material(ctx, None)
    base = ctx.call('material', mk)
    compat = gen.pick(r, [None, True, False])
    kw = {} if compat is None else {'strain_compatibility': compat}
    if r.integers(2):
        s0 = gen.uni(r, 0.01, 0.95) * smax * (gen.pick(r, [1, 1, -1]) if smax > 0 and not kind.startswith('generic') else 1)
        m, ex = ctx.attempt('material_stress', mk, initial_stress=s0, **kw)
        ctx.note(kind=kind, s0=s0, compat=compat)
        if ex is not None:
            # only laws whose initial tangent vanishes may refuse
            t0 = float(np.real(base.constitutive_law.get_tangent(0.0)))
            mono = not kind.startswith('generic')
            ctx.check('initial_stress', not mono and (t0 == 0 or kind.startswith('generic')),
                      key=f'initial_stress:raises:{kind}', msg=f'{ex!r}')
            return
        got = float(np.real(m.constitutive_law.get_stress(0.0)))
        ctx.close('initial_stress', got, s0, 1e-9, 1e-9, key=f'initial_stress:{kind}')
        ctx.close('initial_stress', np.ravel(m.constitutive_law.get_stress(np.array([0.0]))), [s0], 1e-9, 1e-9,
                  key=f'initial_stress_arr:{kind}')
        ctx.check('initial_stress', m.initial_stress == s0, key='initial_stress:attr')
        e0 = m.initial_strain
        ctx.check('initial_stress', e0 is not None and abs(float(np.real(base.constitutive_law.get_stress(float(e0)))) - s0) <= 1e-9 * abs(s0) + 1e-9,
                  key=f'initial_stress:strain:{kind}', msg=f'{e0}')
    else:
        e0 = gen.uni(r, -1, 1) * abs(smax / E if E else 1e-3) * gen.pick(r, [0.5, 0.9])
        m = ctx.call('material_strain', mk, initial_strain=e0, **kw)
        ctx.note(kind=kind, e0=e0, compat=compat)
        s0 = float(np.real(base.constitutive_law.get_stress(float(e0))))
        ctx.check('initial_strain', m.initial_strain == e0, key='initial_strain:attr')
        ctx.close('initial_strain', float(np.real(m.constitutive_law.get_stress(0.0))), s0, 1e-10, 1e-12,
                  key=f'initial_strain:{kind}')
        ctx.close('initial_strain', float(np.real(m.initial_stress)), s0, 1e-10, 1e-12, key='initial_strain:stress_attr')
    e = r.uniform(-0.003, 0.003, 8)
    got = np.asarray(m.constitutive_law.get_stress(np.array(e)), float)
    if compat is False:
        exp = np.full(8, s0)
    else:
        exp = np.asarray(base.constitutive_law.get_stress(np.array(e) + e0), float)
    ctx.close('initial_strain', got, exp, 1e-9, 1e-9 * abs(smax), key=f'response:{kind}')
    ctx.check('wrapped', base.initial_strain is None and base.initial_stress is None, key='wrapped:none')
    if e0 != 0:
        ctx.sig('mat', kind, compat, float(np.sign(s0)))


@M.family(2400, 20000)
def sections(ctx):
    """Composed laws act the same in both integrators."""
    r = ctx.rng
    integ = gen.pick(r, ['marin', 'marin', 'fiber'])
    kw = {'mesh_size': 0.02} if integ == 'fiber' else {}
    kind, rings = gen.placed_shape(r, 400.0)
    surf = dict(ext=rings[0], holes=rings[1:], mat=0, shape=kind)
    poly = build.polygon(surf)

    def sect(law):
        return GenericSection(
            SurfaceGeometry(poly, GenericMaterial(2500, law)), integrator=integ, **kw).section_calculator

    h = float(np.max(np.abs(np.array(rings[0]))))
    which = gen.pick(r, ['shift', 'const', 'par'])
    if which == 'par':
        specs = [gen.law_any(r, 2, poly_only=True) for _ in range(int(r.integers(2, 4)))]
        wt = [gen.uni(r, 0.1, 2) for _ in specs]
        full = dict(kind='par', laws=specs, w=wt)
    else:
        sp = gen.law_any(r, 2, poly_only=True)
        rl = ref.ref_law(sp)
        e0 = gen.uni(r, -0.9, 0.9) * min(abs(rl.lims[0]), rl.lims[1], 0.01)
        full = dict(kind='init', law=sp, e0=e0, compat=which == 'shift')
    spec = dict(surfs=[surf], points=[], mats=[dict(law=full)], size=400.0)
    refs = refs_of(spec)
    top = max([abs(q) for q in refs[0][0][1].kinks if abs(q) < 0.5] or [0.003])
    k = gen.uni(r, 0.05, 1.5) * top / h
    th = gen.uni(r, 0, 2 * math.pi)
    st = (gen.uni(r, -1, 1) * top, k * math.cos(th), k * math.sin(th))
    ctx.note(spec=spec, strain=st, integ=integ)
    what = gen.pick(r, ['stress', 'modulus'])
    got = np.asarray(ctx.call('integrate', sect(build.law(full)).integrate_strain_profile, list(st), what), float)
    if which == 'par':
        parts = [np.asarray(ctx.call('integrate', sect(build.law(s)).integrate_strain_profile, list(st), what), float) for s in specs]
        exp = sum(a * q for a, q in zip(wt, parts))
    elif which == 'shift':
        exp = np.asarray(ctx.call('integrate', sect(build.law(sp)).integrate_strain_profile,
                                  [st[0] + e0, st[1], st[2]], what), float)
    elif what == 'stress':
        s0 = float(np.real(build.law(sp).get_stress(float(e0))))
        el = dict(kind='elastic', E=1.0)
        K = np.asarray(sect(build.law(el)).integrate_strain_profile([1.0, 0.0, 0.0]), float)
        exp = s0 * K
    else:
        E = float(np.max(np.abs(rl.tangent(np.array([-1e-9, 0.0, 1e-9])))))
        K = np.asarray(sect(build.law(dict(kind='elastic', E=max(E, 1e-9)))).integrate_strain_profile([0, 0, 0], 'modulus'), float)
        ctx.check('section', np.all(np.abs(got) <= 1e-4 * np.max(np.abs(K))), key=f'section:const:{integ}', msg=f'{got}')
        return
    _, mag = ref.section_integral(refs[0], refs[1], st, what)
    if what == 'stress':
        tol = tol_vec(spec, st, refs) + loose_nonpoly(spec, refs, 0) + 1e-8 * mag
    else:
        tol = 1e-7 * mag + 1e-7 * np.max(np.abs(exp)) * np.array([[1e-3, 1e-1, 1e-1], [1e-1, 1, 1], [1e-1, 1, 1]])
    if integ == 'fiber':
        tol = tol + 1e-9 * mag
    bad = np.abs(got - exp) > tol
    if bad.any() and integ == 'marin':
        # the composition keeps or drops an unlimited member (known findings)
        kf = known_truncation(spec, refs[1], st, got, tol, what)
        if kf:
            ctx.fail(kf, 'composition truncated by Marin', spec=spec, strain=st)
            return
    ctx.check('section', not bad.any(), key=f'section:{which}:{integ}', msg=f'{what} got {got.tolist()} expected {exp.tolist()} tol {tol.tolist()}')
    if np.any(np.abs(exp) > 0):
        ctx.sig('sec', which, integ, kinds(full), what)


@M.family(60, 200)
def invalid(ctx):
    r = ctx.rng
    law = build.law(gen.law_any(r, 2))
    ctx.rejects('rejects', 'InitialStrain', InitialStrain, 'law', 0.001, exc=(TypeError,))
    ctx.rejects('rejects', 'Parallel', Parallel, [law, 3.0], exc=(TypeError,))
    ctx.rejects('rejects', 'Parallel_w', Parallel, [law, law], [1.0])
    ctx.rejects('rejects', 'both', GenericMaterial, 2500, law, initial_strain=0.001, initial_stress=10.0)
    ctx.rejects('rejects', 'unreachable', ElasticPlasticMaterial, E=2e5, fy=400.0, density=7850,
                eps_su=0.05, initial_stress=gen.uni(r, 405, 900))
    ctx.sig('inv', r.integers(1 << 30))
