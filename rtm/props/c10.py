"""C10: bending strength is an equilibrated ultimate state."""
import math
import re

import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import desc, loose_nonpoly, refs_of, tol_vec, known_truncation

M = Module(
    'C10',
    'random reinforced concrete, composite and steel sections x theta x axial '
    'load from limit to limit (ends included) x integrator; oracle: direction, '
    'equilibrium by re-integration and reference integrals, utilisation of '
    'every material vertex/bar = 1; non-trivial = distinct (section, theta, '
    'load ratio, integrator)',
    required={'mon:direction': 200, 'mon:axial': 200, 'mon:moments': 200,
              'mon:reference': 100, 'mon:ultimate': 150, 'mon:limits': 60,
              'mon:rejects': 60},
)


def limits_of(law):
    a, b = law.get_ultimate_strain()
    return float(a), float(b)


def utilisation(spec, laws, strain):
    """max over all vertices and bars of strain / ultimate strain."""
    e0, ky, kz = strain
    worst = 0.0
    for s in spec['surfs']:
        lo, hi = laws[s['mat']]
        a = np.array(s['ext'])
        e = e0 + ky * a[:, 1] - kz * a[:, 0]
        worst = max(worst, float(np.max(e)) / hi if hi > 0 else 0.0, float(np.min(e)) / lo if lo < 0 else 0.0)
    for p in spec['points']:
        lo, hi = laws[p['mat']]
        e = e0 + ky * p['z'] - kz * p['y']
        worst = max(worst, e / hi if hi > 0 else 0.0, e / lo if lo < 0 else 0.0)
    return worst


def steel_section(r):
    kind, rings = gen.placed_shape(r, gen.logu(r, 80, 900), gen.pick(r, ['I', 'T', 'L', 'C', 'box', 'rect', 'circle']))
    E, fy = gen.uni(r, 190e3, 215e3), gen.uni(r, 200, 700)
    law = dict(kind='ep', E=E, fy=fy, Eh=gen.pick(r, [0.0, 0.01 * E * gen.uni(r, .1, 1)]), eps_su=fy / E * gen.uni(r, 2.5, 40))
    return dict(surfs=[dict(ext=rings[0], holes=rings[1:], mat=0, concrete=False, shape=kind)],
                points=[], mats=[dict(law=law, density=7850.0)], size=300.0)


def case(r, poly=True):
    k = gen.pick(r, ['rc', 'rc', 'rc', 'comp', 'steel'])
    if k == 'steel':
        return k, steel_section(r)
    return k, gen.rc_section(r, poly_only=poly or bool(r.integers(2)), composite=k == 'comp')


def theta_of(r):
    special = gen.pick(r, [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, 2 * math.pi])
    return gen.pick(r, [special, special, gen.uni(r, -math.pi, math.pi), gen.uni(r, 0, 2 * math.pi),
                        gen.uni(r, 0, 2 * math.pi), gen.uni(r, 0, 2 * math.pi), gen.uni(r, -10, 20),
                        # close to a special direction
                        special + gen.pick(r, [-1, 1]) * gen.logu(r, 1e-9, 1e-2)])


def n_between(r, lo, hi):
    m = gen.pick(r, ['zero', 'mid', 'mid', 'low', 'high', 'edge'])
    if m == 'zero' and lo <= 0 <= hi:
        return 'zero', gen.pick(r, [0, 0.0])
    if m == 'low':
        return m, lo + (hi - lo) * gen.logu(r, 1e-5, 0.1)
    if m == 'high':
        return m, hi - (hi - lo) * gen.logu(r, 1e-5, 0.1)
    if m == 'edge':
        return m, gen.pick(r, [lo, hi])
    return 'mid', lo + (hi - lo) * gen.uni(r, 0.05, 0.95)


def make(r, poly=True):
    kind, spec = case(r, poly)
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    kw = dict(mesh_size=gen.pick(r, [0.01, 0.03])) if integrator == 'fiber' else {}
    return kind, spec, integrator, build.section(spec, integrator, **kw)


def plane_checks(ctx, tag, calc, spec, refs, integrator, plane, forces, theta, w, ref_ok=True):
    """Forces of a reported plane: own integrator and reference."""
    fr = build.section(spec, 'marin').section_calculator if integrator == 'marin' else calc
    back = np.array(ctx.call('integrate', fr.integrate_strain_profile, list(plane)), float)
    tv = tol_vec(spec, plane, refs)
    ctx.close('moments', forces, back, 1e-8, 100 * tv + 1e-6 * np.array([1, spec['size'], spec['size']]),
              key=tag + ':re-integration', **w)
    if integrator == 'marin' and ref_ok:
        # the strain at the pivot is the ultimate one up to round-off: the
        # library snaps to the limit, so that the reference is evaluated at a
        # plane just inside
        inner = [v * (1 - 1e-9) for v in plane]
        exp, mag = ref.section_integral(refs[0], refs[1], inner)
        t = 100 * tv + loose_nonpoly(spec, refs) + 2e-5 * mag
        if np.any(np.abs(np.array(forces) - exp) > t):
            if known_truncation(spec, refs[1], plane, forces, t):
                ctx.ev('known_truncation')
                return
        ctx.close('reference', forces, exp, 0, t, key=tag + ':reference', **w)


@M.family(4000, 9000)
def strength(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r, bool(r.integers(4)))
    calc = sec.section_calculator
    refs = refs_of(spec)
    laws = [limits_of(build.law(m['law'])) for m in spec['mats']]
    nmin, nmax = float(calc.n_min), float(calc.n_max)
    for _ in range(2):
        theta = theta_of(r)
        mode, n = n_between(r, nmin, nmax)
        w = dict(spec=spec, theta=theta, n=n, integrator=integrator)
        scaleN = max(abs(nmin), abs(nmax))
        res, exc = ctx.attempt('bending_strength', calc.calculate_bending_strength, theta, n)
        if exc is not None:
            m = re.search(r'unbalance of (\S+)', str(exc))
            small = m and abs(float(m.group(1).strip('[]'))) < 1e-5 * scaleN
            ctx.fail('bending_strength:' + ('jump-at-limit-strain' if small and mode in ('low', 'high', 'edge') else 'raises'),
                     f'{type(exc).__name__}: {exc}', **w)
            continue
        plane = [float(res.eps_a), float(res.chi_y), float(res.chi_z)]
        ctx.check('direction', res.theta == theta, key='theta-echo', **w)
        ks = plane[1] * math.cos(theta) + plane[2] * math.sin(theta)
        kx = -plane[1] * math.sin(theta) + plane[2] * math.cos(theta)
        ctx.check('direction', ks <= 0 and abs(kx) <= 1e-9 * abs(ks), key='direction', msg=f'{ks} {kx}', **w)
        # (the search stops at a curvature of 1e-13 for the limit loads)
        cont = 1e-2 + (1e-9 if mode != 'edge' else 1e-5) * scaleN
        ctx.close('axial', res.n, n, 0, cont, key='axial-force', **w)
        plane_checks(ctx, 'strength', calc, spec, refs, integrator, plane, [res.n, res.m_y, res.m_z], theta, w)
        u = utilisation(spec, laws, plane)
        ctx.close('ultimate', u, 1.0, 0, 1e-6, key='ultimate', msg='utilisation', **w)
        ctx.sig(desc(spec), round(theta, 2), mode, integrator)
        ctx.note(desc=desc(spec), theta=theta, n=n, plane=plane)


@M.family(1600, 3000)
def limits(ctx):
    r = ctx.rng
    kind, spec, integrator, sec = make(r)
    calc = sec.section_calculator
    refs = refs_of(spec)
    laws = [limits_of(build.law(m['law'])) for m in spec['mats']]
    order = r.integers(3)
    if order == 0:
        a, b = ctx.call('limit', calc.calculate_limit_axial_load)
        nmin, nmax = calc.n_min, calc.n_max
        ctx.close('limits', [a, b], [nmin, nmax], 1e-12, key='limit-accessors', spec=spec)
    elif order == 1:
        nmax = calc.n_max
        nmin = calc.n_min
    else:
        nmin, nmax = calc.n_min, calc.n_max
    nmin, nmax = float(nmin), float(nmax)
    w = dict(spec=spec, integrator=integrator)
    ctx.check('limits', nmin < nmax, key='limit-order', msg=f'{nmin} {nmax}', **w)
    lims = [laws[s['mat']] for s in spec['surfs']] + [laws[p['mat']] for p in spec['points']]
    en = max(l for l, _ in lims)
    ep = min(h for _, h in lims)
    got = []
    for e in (en, ep):
        v, mag = ref.section_integral(refs[0], refs[1], (e * (1 - 1e-12), 0, 0))
        got.append((v[0], mag[0]))
    ctx.close('limits', [nmin, nmax], [g[0] for g in got], 0, [1e-5 * g[1] + 1e-6 for g in got] , key='limit-value', **w)
    span = nmax - nmin
    for n in (nmin - span * gen.logu(r, 1e-6, 10), nmax + span * gen.logu(r, 1e-6, 10)):
        ctx.rejects('rejects', 'bending_strength', calc.calculate_bending_strength, theta_of(r), n)
        ctx.rejects('rejects', 'moment_curvature', calc.calculate_moment_curvature, theta_of(r), n)
        ctx.rejects('rejects', 'check_axial_load', calc.check_axial_load, n)
        ctx.rejects('rejects', 'mm', calc.calculate_mm_interaction_domain, n, 3)
    for n in (nmin, nmax, nmin + span * gen.uni(r, 0, 1)):
        ctx.call('check_axial_load', calc.check_axial_load, n)
    ctx.sig(desc(spec), integrator, int(order))
