"""C11: moment-curvature points are in equilibrium along the requested path."""
import math
import re

import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import desc, loose_nonpoly, refs_of, tol_vec, known_truncation
from .c10 import case, limits_of, make, n_between, theta_of

M = Module(
    'C11',
    'random reinforced concrete, composite and steel sections x theta x axial '
    'load x point counts / first curvature / user curvature lists (any order, '
    'sign, container, integers) x integrator; oracle: every point re-integrated '
    'on a fresh section and by the reference, direction, grid, end points '
    'against the bending strength; non-trivial = distinct (section, theta, '
    'load ratio, options)',
    required={'mon:echo': 200, 'mon:axial': 400, 'mon:moments': 400, 'mon:direction': 100,
              'mon:reference': 100, 'mon:grid': 100, 'mon:ultimate': 60, 'mon:yield': 30,
              'mon:given': 80},
)


def yield_limits(spec, objs):
    """(negative, positive) governing strains of the yield state by part."""
    rc = any(s['concrete'] for s in spec['surfs'])
    out = []
    for s in spec['surfs']:
        lu, ly = objs[s['mat']].get_ultimate_strain(), objs[s['mat']].get_ultimate_strain(yielding=True)
        out.append(((ly if (not rc or s['concrete']) else lu)[0], ly[1]))
    for p in spec['points']:
        lu, ly = objs[p['mat']].get_ultimate_strain(), objs[p['mat']].get_ultimate_strain(yielding=True)
        out.append(((ly if not rc else lu)[0], ly[1]))
    return [(float(a), float(b)) for a, b in out]


def use(spec, lims, strain):
    e0, ky, kz = strain
    worst = 0.0
    for part, (lo, hi) in zip(spec['surfs'] + spec['points'], lims):
        a = np.array(part['ext']) if 'ext' in part else np.array([[part['y'], part['z']]])
        e = e0 + ky * a[:, 1] - kz * a[:, 0]
        worst = max(worst, float(np.max(e)) / hi, float(np.min(e)) / lo)
    return worst


def other_branch(calc, spec, lims, pl, n):
    """The curvature of pl is the one of a yield state with axial force n."""
    _, ky, kz = pl
    lo, hi = -np.inf, np.inf
    for part, (a, b) in zip(spec['surfs'] + spec['points'], lims):
        xy = np.array(part['ext']) if 'ext' in part else np.array([[part['y'], part['z']]])
        e = ky * xy[:, 1] - kz * xy[:, 0]
        lo, hi = max(lo, a - np.min(e)), min(hi, b - np.max(e))
    scale = max(abs(float(calc.n_min)), abs(float(calc.n_max)))
    for e0 in (lo, hi):
        if abs(use(spec, lims, (e0, ky, kz)) - 1) < 1e-9:
            if abs(float(calc.integrate_strain_profile([e0, ky, kz])[0]) - n) < 1e-4 * scale:
                return True
    return False


def points(ctx, tag, spec, integrator, sec, res, theta, n, w, idx=None):
    """Equilibrium, direction and moments of the points of a result."""
    calc = build.section(spec, 'marin').section_calculator if integrator == 'marin' else sec.section_calculator
    refs = refs_of(spec)
    ult = [limits_of(build.law(spec['mats'][p['mat']]['law'])) for p in spec['surfs'] + spec['points']]
    cy, cz, ea = (np.asarray(v, float) for v in (res.chi_y, res.chi_z, res.eps_axial))
    my, mz = np.asarray(res.m_y, float), np.asarray(res.m_z, float)
    cross = -cy * math.sin(theta) + cz * math.cos(theta)
    along = cy * math.cos(theta) + cz * math.sin(theta)
    ctx.check('direction', np.all(np.abs(cross) <= 1e-12 * np.abs(along) + 1e-300), key=tag + ':direction',
              msg=f'{cross} {along}', **w)
    m = len(ea)
    for i in (range(m) if idx is None else idx):
        pl = (float(ea[i]), float(cy[i]), float(cz[i]))
        back = np.array(ctx.call('integrate', calc.integrate_strain_profile, list(pl)), float)
        tv = tol_vec(spec, pl, refs)
        # the plane is rotated to the frame of the section: round-off at the
        # snapping limits of the laws
        ctx.close('axial', back[0], n, 0, 1.2e-2 + 100 * tv[0], key=tag + ':axial-force', msg=f'point {i}/{m} {pl}', **w)
        ctx.close('moments', [my[i], mz[i]], back[1:], 1e-8, 100 * tv[1:] + 1e-6 * spec['size'],
                  key=tag + ':moments', msg=f'point {i}/{m} {pl}', **w)
        if integrator == 'marin' and i % 3 == 0:
            # strains beyond the limits by less than the snapping tolerance
            # count as the limit
            near = use(spec, ult, pl) > 1 - 1e-6
            inner = [v * (1 - (3e-5 if near else 1e-9)) for v in pl]
            exp, mag = ref.section_integral(refs[0], refs[1], inner)
            t = 100 * tv + loose_nonpoly(spec, refs) + (1e-4 if near else 2e-5) * mag + 1.2e-2
            got = [n, my[i], mz[i]]
            if np.any(np.abs(np.array(got) - exp) > t) and known_truncation(spec, refs[1], pl, got, t):
                ctx.ev('known_truncation')
                continue
            ctx.close('reference', got, exp, 0, t, key=tag + ':reference', msg=f'point {i}/{m} {pl}', **w)
    return along


def shape_checks(ctx, res, theta, n, count, w):
    ctx.check('echo', res.theta == theta and res.n == n, key='echo', msg=f'{res.theta} {res.n}', **w)
    for f in ('chi_y', 'chi_z', 'eps_axial', 'm_y', 'm_z'):
        a = np.asarray(getattr(res, f))
        ctx.check('echo', a.shape == (count,) and np.all(np.isfinite(a)), key='shape', msg=f'{f} {a.shape} {count}', **w)


@M.family(440, 2500)
def auto(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    objs = [build.law(m['law']) for m in spec['mats']]
    theta = theta_of(r)
    mode, n = n_between(r, float(calc.n_min), float(calc.n_max))
    if r.integers(2) and calc.n_min < 0 < calc.n_max:
        mode, n = 'low', float(calc.n_min) * gen.uni(r, 0, 0.4)
    pre, post = int(r.integers(2, 9)), int(r.integers(1, 8))
    first = gen.pick(r, [1e-8, 1e-8, 1e-7, -1e-8, gen.logu(r, 1e-10, 1e-5), 1.0])
    kw = dict(chi_first=first, num_pre_yield=pre, num_post_yield=post)
    default = r.integers(4) == 0
    if default:
        kw, first, pre, post = {}, 1e-8, 10, 10
    w = dict(spec=spec, theta=theta, n=n, integrator=integrator, kw=kw)
    res, ex = ctx.attempt('moment_curvature', calc.calculate_moment_curvature, theta, n, **kw)
    lims = yield_limits(spec, objs)
    if ex is not None:
        if not isinstance(ex, ValueError):
            ctx.fail(f'raises:{type(ex).__name__}', repr(ex), **w)
            return
        ctx.ev('refused')
        ctx.note(refused=repr(ex), n=n)
        if mode == 'edge':
            # only the uniform strain carries a limit load
            return
        ctx.fail('refused:' + ('sign' if 'opposite' in str(ex) else 'iterations'), repr(ex), mode=mode, kind=kind, lims=[float(calc.n_min), float(calc.n_max)], **w)
        return
    strength = ctx.call('bending_strength', build.section(spec, integrator, **({'mesh_size': calc.mesh_size} if integrator == 'fiber' else {})).section_calculator.calculate_bending_strength, theta, n)
    cult = float(strength.chi_y) * math.cos(theta) + float(strength.chi_z) * math.sin(theta)
    m = len(np.atleast_1d(res.m_y))
    ctx.check('grid', m in (pre, pre + post), key='count', msg=f'{m} points for {pre}+{post}', **w)
    shape_checks(ctx, res, theta, n, m, w)
    along = points(ctx, 'auto', spec, integrator, sec, res, theta, n, w)
    plast = m == pre + post
    cyield = along[pre - 1]
    # grid
    f = abs(first) * math.copysign(1, cyield)
    if abs(first) >= abs(cyield):
        f = cyield / pre
    exp = list(np.linspace(f, cyield, pre))
    if plast:
        exp += list(np.linspace(cyield, cult, post + 1)[1:])
    ctx.close('grid', along, exp, 1e-9, 1e-15, key='grid', **w)
    ctx.check('grid', cult <= 0 and np.all(along <= 0), key='sign', msg=f'{along}', **w)
    if plast:
        ctx.close('ultimate', along[-1], cult, 1e-9, key='ultimate-curvature', **w)
        ctx.check('grid', abs(cult) > abs(cyield), key='grid-order', msg=f'{cult} {cyield}', **w)
    else:
        ctx.check('ultimate', abs(cult) <= abs(cyield) * (1 + 1.0001e-6), key='missing-plastic-branch', msg=f'{cult} {cyield}', **w)
    pl = [float(np.asarray(getattr(res, k))[pre - 1]) for k in ('eps_axial', 'chi_y', 'chi_z')]
    ny = [float(calc.integrate_strain_profile([e, 0, 0])[0]) for e in (max(a for a, _ in lims), min(b for _, b in lims))]
    margin = 1e-3 * (max(ny) - min(ny))
    if min(ny) + margin < n < max(ny) - margin:
        if abs(use(spec, lims, pl) - 1) > 1e-5 and other_branch(calc, spec, lims, pl, n):
            # another strain is in equilibrium at the same (yield) curvature
            ctx.ev('other_branch')
            ctx.ev('mon:yield')
        else:
            ctx.close('yield', use(spec, lims, pl), 1.0, 0, 1e-5, key='yield', msg=f'{pl}', **w)
    else:
        # yielding without any curvature
        ctx.ev('beyond_yield')
    ctx.sig(desc(spec), round(theta, 2), mode, integrator, pre, post, plast)
    ctx.ev('plastic' if plast else 'elastic_only')
    ctx.note(desc=desc(spec), theta=theta, n=n, along=along.tolist())


@M.family(360, 2000)
def given(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    theta = theta_of(r)
    mode, n = n_between(r, float(calc.n_min), float(calc.n_max))
    if mode == 'edge':
        mode, n = 'mid', 0.5 * float(calc.n_min) + 0.5 * float(calc.n_max)
    st = ctx.call('bending_strength', calc.calculate_bending_strength, theta, n)
    cult = float(st.chi_y) * math.cos(theta) + float(st.chi_z) * math.sin(theta)
    k = int(r.integers(1, 7))
    fr = {'ramp': np.linspace(1 / k, 1, k), 'random': r.uniform(0, 1, k), 'back': np.linspace(1, 0.2, k),
          'cycle': r.uniform(-0.3, 1, k)}
    how = gen.pick(r, sorted(fr))
    chi = 0.98 * fr[how] * cult
    if np.any(fr[how] < 0):
        # bending the other way: within what the section takes that way
        op = ctx.call('bending_strength', calc.calculate_bending_strength, theta + math.pi, n)
        other = math.hypot(float(op.chi_y), float(op.chi_z))
        chi = np.minimum(chi, 0.9 * other)
    if r.integers(6) == 0:
        chi = np.append(chi, 0.0)
    box = gen.pick(r, ['array', 'list', 'tuple'])
    arg = chi if box == 'array' else (list(map(float, chi)) if box == 'list' else tuple(map(float, chi)))
    w = dict(spec=spec, theta=theta, n=n, integrator=integrator, chi=chi)
    keep = np.array(chi, float)
    res, ex = ctx.attempt('moment_curvature', calc.calculate_moment_curvature, theta, n, chi=arg)
    if ex is not None:
        ctx.fail('given:' + type(ex).__name__, repr(ex), mode=mode, kind=kind, how=how, **w)
        return
    shape_checks(ctx, res, theta, n, len(chi), w)
    along = points(ctx, 'given', spec, integrator, sec, res, theta, n, w)
    ctx.close('given', along, keep, 1e-12, 1e-300, key='given-curvatures', **w)
    ctx.check('given', np.array_equal(np.asarray(arg, float), keep), key='argument-changed', **w)
    ctx.sig('given', desc(spec), round(theta, 2), mode, integrator, how, box)


@M.family(240, 1000)
def integers(ctx):
    """Integer curvatures (metre units make them plausible) and float lists
    give the same response."""
    r = ctx.rng
    E = gen.logu(r, 1, 1e3)
    kind, rings = gen.placed_shape(r, gen.logu(r, 0.5, 5), 'rect')
    spec = dict(surfs=[dict(ext=rings[0], holes=rings[1:], mat=0, concrete=False, shape=kind)], points=[],
                mats=[dict(law=dict(kind='elastic', E=E), density=1.0)], size=5.0)
    chi = [int(v) for v in r.integers(-5, 6, int(r.integers(1, 5)))]
    theta, n = theta_of(r), float(gen.uni(r, -1, 1) * E)
    box = gen.pick(r, [list, tuple, np.array])
    calc = build.section(spec).section_calculator
    a = ctx.call('moment_curvature', calc.calculate_moment_curvature, theta, n, chi=box(chi))
    b = ctx.call('moment_curvature', calc.calculate_moment_curvature, theta, n, chi=[float(v) for v in chi])
    for f in ('chi_y', 'chi_z', 'eps_axial', 'm_y', 'm_z'):
        ctx.close('given', getattr(a, f), getattr(b, f), 1e-9, 1e-12, key='integer-curvatures', msg=f, chi=chi)
    along = np.asarray(a.chi_y) * math.cos(theta) + np.asarray(a.chi_z) * math.sin(theta)
    ctx.close('given', along, chi, 1e-9, 1e-12, key='integer-values')
    ctx.sig('int', tuple(chi), round(theta, 2))
