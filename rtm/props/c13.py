"""C13: strain plane found for given loads."""
import math

import numpy as np
import shapely

from .. import build, gen, ref
from ..core import Module
from .c02 import desc, law_scale, refs_of, tol_vec, unit_size, known_truncation, loose_nonpoly

M = Module(
    'C13',
    'random elastic sections (mm and m, any position) with arbitrary loads; '
    'reinforced concrete and mixed sections with attainable and unattainable '
    'loads, Newton and initial stiffness iterations, iteration limits and '
    'tolerances; oracle: integration of the returned plane on a fresh section '
    'and by the independent reference; non-trivial = distinct (section, load '
    'kind, options, outcome)',
    required={'mon:linear': 200, 'mon:residual': 150, 'mon:refresidual': 60,
              'mon:refuses': 100, 'mon:elastic_range': 60},
)
# diverging planes end in the geometry engine
ERR = (StopIteration, np.linalg.LinAlgError, shapely.errors.ShapelyError)


def solve(ctx, calc, loads, **kw):
    """(strain, None) or (None, error); anything else is a violation."""
    n, my, mz = loads
    val, ex = ctx.attempt('strain_profile', calc.calculate_strain_profile, n, my, mz, **kw)
    if ex is not None and not isinstance(ex, (*ERR, ValueError)):
        ctx.fail(f'raises:{type(ex).__name__}', repr(ex), loads=loads, kw=kw)
        return None, ex
    return val, ex


def stiff_bound(spec, refs, tol):
    """Upper bound of the forces of a plane whose strains have root mean
    square tol over the bounding box of the section."""
    surfs, pts, _ = refs
    K = np.zeros(3)
    xy = gen.all_xy(spec)
    c, d = (xy.min(axis=0) + xy.max(axis=0)) / 2, np.maximum(np.ptp(xy, axis=0), 1e-300) / math.sqrt(12)

    def add(A, pos, E):
        pos = np.atleast_2d(pos)
        peak = np.sqrt(1 + np.sum(((pos - c) / d) ** 2, axis=1)).max()
        y, z = np.abs(pos).max(axis=0)
        K[:] += A * E * tol * peak * np.array([1.0, z, y])

    for s, law in surfs:
        add(abs(ref.signed_area(s['ext'])), np.array(s['ext']), emax(law))
    for y, z, A, law in pts:
        add(A, (y, z), emax(law))
    return 3 * K


def floor_of(K, st):
    """Round-off level of K st by component, in a scaled norm."""
    s = np.sqrt(np.diag(K))
    return 1e-9 * s * float(np.max(s * np.abs(st)))


def emax(law):
    g = np.array(sorted({0.0, *[q for q in law.kinks if abs(q) < 90]}))
    g = np.concatenate((g - 1e-7, g + 1e-7, 0.5 * (g[1:] + g[:-1]), np.linspace(g[0], g[-1], 41)))
    return float(np.max(np.abs(law.tangent(g))))


def options(r):
    return dict(initial=bool(r.integers(3) == 0), max_iter=int(gen.pick(r, [10, 30, 100, 200])),
                tol=gen.pick(r, [1e-6, 1e-6, 1e-8, 1e-10, 1e-12]))


@M.family(2100, 15000)
def linear(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=True, size=unit_size(r))
    spec['mats'] = [dict(law=dict(kind='elastic', E=gen.logu(r, 1, 3e5)), density=1.0) for _ in spec['mats']]
    refs = refs_of(spec)
    K, _ = ref.section_integral(refs[0], refs[1], (0, 0, 0), 'modulus')
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    mesh = gen.pick(r, [0.01, 0.003]) if integrator == 'fiber' else 0.01
    kw = dict(mesh_size=mesh) if integrator == 'fiber' else {}
    sec = build.section(spec, integrator, **kw)
    calc = sec.section_calculator
    target = gen.strain_plane(r, spec)[1]
    loads = K @ np.array(target)
    mode = gen.pick(r, ['plane', 'one', 'free', 'zero'])
    if mode == 'one':
        j = int(r.integers(3))
        loads = np.array([v if i == j else 0.0 for i, v in enumerate(loads)])
    elif mode == 'free':
        loads = loads * r.uniform(-2, 2, 3)
    elif mode == 'zero':
        loads = np.zeros(3)
    o = options(r)
    if r.integers(3) == 0:
        o['max_iter'] = 2 if mode != 'zero' else 1
    form = gen.pick(r, [float, np.float64, lambda v: int(round(v)) if abs(v) > 100 else float(v)])
    loads = [form(v) for v in loads]
    # an ill conditioned system limits what is attainable
    D = np.diag(1 / np.sqrt(np.diag(K)))
    cond = float(np.linalg.cond(D @ K @ D))
    if cond > 1e7:
        ctx.ev('skip_ill_conditioned')
        return
    exp = np.linalg.solve(K, np.array(loads, float))
    # round-off of the position (far away sections) may prevent tiny tolerances
    scale = D @ np.array([1, 1, 1.0])
    sc = float(np.linalg.norm(exp)) * 1e-13 * cond + 1e-14 * cond * float(np.max(np.abs(loads))) * float(np.max(scale)) ** 2
    o['tol'] = max(o['tol'], 100 * sc)
    w = dict(spec=spec, loads=loads, options=o, integrator=integrator)
    got, ex = solve(ctx, calc, loads, **o)
    if not ctx.check('linear', ex is None, key='linear-not-solved', msg=repr(ex), **w):
        return
    got = np.array(got, float)
    if integrator == 'marin':
        res = K @ got - np.array(loads, float)
        bound = stiff_bound(spec, refs, min(o['tol'], 1e-9 * np.linalg.norm(exp) + 1e-18))
        lim = floor_of(K, exp) + bound + 1e-9 * np.abs(loads)
        ctx.close('linear', res, np.zeros(3), 0, lim, key='linear-residual', msg=f'strain {got} expected {exp}', **w)
    else:
        kf = np.array(build.section(spec, integrator, **kw).section_calculator.integrate_strain_profile(list(got)), float)
        lim = 10 * floor_of(K, exp) + 1e-9 * np.abs(loads)
        ctx.close('linear', kf, np.array(loads, float), 0, lim, key='linear-residual-fiber', **w)
    ctx.check('type', isinstance(got.tolist(), list) and got.shape == (3,), msg=repr(got))
    ctx.sig(desc(spec), mode, integrator, o['initial'], o['max_iter'])
    ctx.note(desc=desc(spec), loads=loads, options=o, strain=got)


def rc_case(r):
    if r.integers(3):
        return gen.rc_section(r, poly_only=bool(r.integers(3)), composite=bool(r.integers(4) == 0))
    return gen.mixed_section(r, poly_only=True, npoints=int(r.integers(2, 7)), max_parts=2)


def jumps_near(refs, strain, got, tol):
    """A stress discontinuity within reach of the last increment."""
    reach = lambda y, z: 5 * tol + 3e-6  # noqa: E731
    for s, law in refs[0]:
        if strain[1] == 0 and strain[2] == 0:
            return True
    for y, z, _, law in refs[1]:
        e = strain[0] + strain[1] * z - strain[2] * y
        if any(abs(e - q) <= reach(y, z) + 3e-5 * abs(q) for q in (*law.snaps, *law.kinks)):
            return True
    return False


@M.family(1500, 10000)
def nonlinear(ctx):
    r = ctx.rng
    spec = rc_case(r)
    refs = refs_of(spec)
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    kw = dict(mesh_size=gen.pick(r, [0.01, 0.03])) if integrator == 'fiber' else {}
    calc = build.section(spec, integrator, **kw).section_calculator
    fresh = build.section(spec, integrator, **kw).section_calculator
    _, target = gen.strain_plane(r, spec, scale=gen.logu(r, 5e-5, 5e-3))
    loads = np.array(ctx.call('integrate', fresh.integrate_strain_profile, list(target)), float)
    kind = gen.pick(r, ['inside', 'inside', 'scaled', 'beyond'])
    if kind == 'scaled':
        loads = loads * gen.uni(r, 0.05, 0.7)
    elif kind == 'beyond':
        loads = loads * gen.logu(r, 2, 100)
    o = options(r)
    loads = [float(v) for v in loads]
    w = dict(spec=spec, loads=loads, options=o, integrator=integrator)
    got, ex = solve(ctx, calc, loads, **o)
    ctx.ev('solved' if ex is None else f'refused:{type(ex).__name__}')
    ctx.sig(desc(spec), kind, integrator, o['initial'], ex is None)
    if ex is not None:
        ctx.ev('mon:refuses')
        ctx.check('state_kept', np.allclose(
            np.array(calc.integrate_strain_profile(list(target)), float),
            np.array(fresh.integrate_strain_profile(list(target)), float), rtol=1e-9, atol=1e-6), **w)
        return
    got = np.array(got, float)
    if not ctx.check('finite', np.all(np.isfinite(got)), msg=repr(got), **w):
        return
    back = np.array(ctx.call('integrate', fresh.integrate_strain_profile, list(got)), float)
    bound = stiff_bound(spec, refs, o['tol'])
    rnd = tol_vec(spec, got, refs)
    lim = bound + 10 * rnd + 1e-9 * np.abs(loads)
    ok = np.all(np.abs(back - loads) <= lim)
    if not ok and jumps_near(refs, got, got, o['tol']):
        ctx.ev('residual_at_jump')
    else:
        ctx.close('residual', back, loads, 0, lim, key='residual', msg=f'tol {o["tol"]} strain {got}', **w)
    if integrator == 'marin' and ok:
        exp, mag = ref.section_integral(refs[0], refs[1], got)
        t2 = lim + loose_nonpoly(spec, refs) + 1e-9 * mag
        if np.any(np.abs(exp - loads) > t2) and (
            known_truncation(spec, refs[1], got, back, t2) or jumps_near(refs, got, got, o['tol'])
        ):
            ctx.ev('known_truncation')
        else:
            ctx.close('refresidual', loads, exp, 0, t2, key='reference-residual', **w)


@M.family(750, 5000)
def elastic_range(ctx):
    """Loads in the linear range of bilinear laws: the exact solution."""
    r = ctx.rng
    spec = gen.rc_section(r, poly_only=True)
    E = gen.uni(r, 15e3, 40e3)
    e0 = gen.uni(r, 1e-3, 2e-3)
    spec['mats'][0]['law'] = dict(kind='user', x=[-2 * e0, -e0, 0.0, e0, 2 * e0],
                                  y=[-E * e0, -E * e0, 0.0, E * e0, E * e0], flag=0)
    refs = refs_of(spec)
    K, _ = ref.section_integral(refs[0], refs[1], (0, 0, 0), 'modulus')
    _, st = gen.strain_plane(r, spec, scale=1e-4)
    xy = gen.all_xy(spec)
    ee = st[0] + st[1] * xy[:, 1] - st[2] * xy[:, 0]
    st = np.array(st) * (0.6 * e0 / max(np.max(np.abs(ee)), 1e-12))
    loads = [float(v) for v in K @ st]
    integrator = gen.pick(r, ['marin', 'fiber'])
    calc = build.section(spec, integrator).section_calculator
    ini = bool(r.integers(2))
    w = dict(spec=spec, loads=loads, initial=ini, integrator=integrator)
    got, ex = solve(ctx, calc, loads, initial=ini, max_iter=int(gen.pick(r, [2, 3, 10, 50])), tol=1e-10)
    if not ctx.check('elastic_range', ex is None, key='elastic-not-solved', msg=repr(ex), **w):
        return
    if integrator == 'marin':
        D = 1 / np.sqrt(np.diag(K))
        cond = float(np.linalg.cond(np.diag(D) @ K @ np.diag(D)))
        res = K @ np.array(got) - np.array(loads)
        ctx.close('elastic_range', res, np.zeros(3), 0, floor_of(K, st) + 1e-13 * cond * np.abs(loads),
                  key='elastic-residual', **w)
    ctx.sig('el', desc(spec), ini, integrator)


@M.family(750, 4000)
def refusals(ctx):
    """Loads beyond the resistance or too few iterations: always an error."""
    r = ctx.rng
    spec = gen.rc_section(r, poly_only=True)
    refs = refs_of(spec)
    # upper bound of |N|
    peak = 0.0
    for s, law in refs[0]:
        g = np.linspace(law.lims[0], min(law.lims[1], 1), 400)
        peak += abs(ref.signed_area(s['ext'])) * float(np.max(np.abs(law.stress(g))))
    for y, z, A, law in refs[1]:
        g = np.linspace(law.lims[0], law.lims[1], 400)
        peak += A * float(np.max(np.abs(law.stress(g))))
    integrator = gen.pick(r, ['marin', 'fiber'])
    calc = build.section(spec, integrator).section_calculator
    n = gen.pick(r, [-1, 1]) * peak * gen.uni(r, 1.5, 20)
    my, mz = r.uniform(-1, 1, 2) * peak * spec['size'] * gen.pick(r, [0, 0.1, 3])
    o = options(r)
    got, ex = solve(ctx, calc, (float(n), float(my), float(mz)), **o)
    ctx.check('refuses', ex is not None, key='unattainable-load-accepted',
              msg=f'n={n} beyond {peak}: {got}', spec=spec, loads=(n, my, mz), options=o)
    # one iteration from zero is never enough for a nonlinear response
    _, st = gen.strain_plane(r, spec, scale=1e-3)
    loads = [float(v) for v in calc.integrate_strain_profile(list(st))]
    if max(abs(v) for v in loads) > 0:
        for mi in (1, 2):
            got, ex = solve(ctx, calc, loads, max_iter=mi, tol=1e-12)
            if ex is None:
                back = np.array(calc.integrate_strain_profile(got), float)
                ctx.close('few', back, loads, 1e-6, 1e-6 * max(abs(v) for v in loads), key='few-iterations',
                          msg=f'{mi} iterations', spec=spec, loads=loads)
            else:
                ctx.ev('few_refused')
    ctx.sig('beyond', desc(spec), integrator, o['initial'])


@M.family(600, 4000)
def symmetric(ctx):
    """Hardening sections symmetric about both axes, loaded by one component
    or about one axis only: the increments of the others vanish."""
    r = ctx.rng
    h, b = gen.logu(r, 50, 1500), gen.logu(r, 50, 1500)
    shape = gen.pick(r, ['rect', 'I', 'box'])
    half = lambda x, z: [[-x, -z], [x, -z], [x, z], [-x, z]]  # noqa: E731
    ext, holes = half(b / 2, h / 2), []
    if shape == 'box':
        t = gen.uni(r, 0.05, 0.4)
        holes = [half(b / 2 * (1 - t), h / 2 * (1 - t))]
    elif shape == 'I':
        t, w = 0.5 * h * gen.uni(r, 0.6, 0.95), 0.5 * b * gen.uni(r, 0.03, 0.5)
        B, H = b / 2, h / 2
        ext = [[-B, -H], [B, -H], [B, -t], [w, -t], [w, t], [B, t], [B, H], [-B, H], [-B, t], [-w, t], [-w, -t], [-B, -t]]
    E, fy = gen.uni(r, 150e3, 220e3), gen.uni(r, 200, 800)
    law = dict(kind='ep', E=E, fy=fy, Eh=E * gen.logu(r, 0.01, 0.3), eps_su=None)
    spec = dict(surfs=[dict(ext=ext, holes=holes, mat=0, concrete=False, shape=shape)], points=[], size=max(b, h),
                mats=[dict(law=law, density=7850.0)])
    for y, z in ((0.4 * b, 0.45 * h), (0.3 * b, 0.2 * h)) if r.integers(2) else ():
        for q in ((y, z), (-y, z), (y, -z), (-y, -z)):
            spec['points'].append(dict(y=q[0], z=q[1], d=12.0, mat=0))
    refs = refs_of(spec)
    ey = fy / E
    comp = int(r.integers(4))
    amp = ey * gen.uni(r, 0.3, 1.9)
    target = [[amp, 0, 0], [0, amp / (h / 2), 0], [0, 0, amp / (b / 2)],
              [amp * 0.4, 0.5 * amp / (h / 2), 0] if r.integers(2) else [amp * 0.4, 0, 0.5 * amp / (b / 2)]][comp]
    target = [float(v * gen.pick(r, [-1, 1])) for v in target]
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    kw = dict(mesh_size=0.01) if integrator == 'fiber' else {}
    calc = build.section(spec, integrator, **kw).section_calculator
    fresh = build.section(spec, integrator, **kw).section_calculator
    loads = [float(v) for v in ctx.call('integrate', fresh.integrate_strain_profile, target)]
    if integrator == 'marin':
        # exactly one component
        loads = [v if t != 0 else 0.0 for v, t in zip(loads, target)]
    o = dict(initial=bool(r.integers(2)), max_iter=1000, tol=gen.pick(r, [1e-8, 1e-10]))
    w = dict(spec=spec, loads=loads, options=o, integrator=integrator)
    got, ex = solve(ctx, calc, loads, **o)
    ctx.sig('sym', shape, comp, integrator, o['initial'], round(amp / ey, 1))
    if ex is not None:
        ctx.ev('symmetric_refused')
        return
    back = np.array(ctx.call('integrate', fresh.integrate_strain_profile, list(got)), float)
    lim = stiff_bound(spec, refs, o['tol']) + 10 * tol_vec(spec, got, refs) + 1e-9 * np.abs(loads)
    ctx.close('residual', back, loads, 0, lim, key='symmetric-residual', msg=f'strain {got} target {target}', **w)
