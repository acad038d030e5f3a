"""C03: section tangent stiffness."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import (
    beyond_check, desc, has_epu, known_truncation, law_scale, near_uniform_limit,
    refs_of, truncated_refs,
)

M = Module(
    'C03',
    'random composite sections x laws x strain planes as in C02; the stiffness '
    'matrix is compared with an exact reference integral, with central '
    'differences of the internal forces returned by the library, and between '
    'integrators; non-trivial = distinct (shapes, laws, plane mode) with a '
    'non-zero stiffness',
    required={'mon:marin': 200, 'mon:fd': 100, 'mon:symmetry': 300,
              'mon:fiber_sum': 60, 'mon:psd': 80, 'mon:initial': 40},
)


def tol_mat(spec, strain, refs):
    surfs, pts, _ = refs
    xy = gen.all_xy(spec)
    R = float(np.max(np.hypot(xy[:, 0], xy[:, 1])))
    e = abs(strain[0]) + math.hypot(strain[1], strain[2]) * R
    t = 0.0
    for s, law in surfs:
        E = law_scale(law, strain, R) / max(e, 1e-12)
        k = [abs(q) for q in law.kinks if 0 < abs(q) < 90]
        ee = 1 + e / min(k) if k and law.peak else 1.0
        t += (abs(ref.signed_area(s['ext'])) + 1e-4 * R * R) * E * ee
    for y, z, A, law in pts:
        t += A * law_scale(law, strain, R) / max(e, 1e-12)
    return t * 1e-10 * np.array([[1, R, R], [R, R * R, R * R], [R, R * R, R * R]])


def stiff(ctx, calc, strain, label='stiffness'):
    K = ctx.call(label, calc.integrate_strain_profile, list(strain), 'modulus')
    return np.array(K, dtype=float)


def symmetric(ctx, K, spec, strain):
    ctx.check('symmetry', K.shape == (3, 3) and np.allclose(K, K.T, rtol=1e-8, atol=1e-9 * np.max(np.abs(K))),
              msg=f'not symmetric {K}', spec=spec, strain=strain)


def nominal_stiffness(law):
    if law['kind'] == 'init' and law.get('compat') is False:
        return True
    subs = [law['law']] if isinstance(law.get('law'), dict) else list(law.get('laws', ()))
    return any(nominal_stiffness(s) for s in subs)


def nondim(K, L):
    D = np.diag([1, 1 / L, 1 / L])
    return D @ K @ D


@M.family(4000, 40000)
def marin(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=True, far=0.1)
    refs = refs_of(spec)
    calc = build.section(spec, 'marin').section_calculator
    for _ in range(3):
        mode, strain = gen.strain_plane(r, spec)
        if near_uniform_limit(spec, strain, refs):
            ctx.ev('skipped_band')
            continue
        exp, mag = ref.section_integral(refs[0], refs[1], strain, 'modulus')
        K = stiff(ctx, calc, strain)
        symmetric(ctx, K, spec, strain)
        tol = tol_mat(spec, strain, refs) + 1e-9 * mag
        if not np.all(np.abs(K - exp) <= tol):
            kf = known_truncation(spec, refs[1], strain, K, tol, 'modulus')
            if kf:
                ctx.fail(kf, 'Marin stiffness truncated', spec=spec, strain=strain)
                continue
        if not ctx.close('marin', K, exp, 0, tol, key=f'marin:{mode}',
                         msg=desc(spec), spec=spec, strain=strain):
            return
        xy = np.array([p for s, law in refs[0] for p in s['ext']])
        soft = False
        for _, law in refs[0] + [(0, p[3]) for p in refs[1]]:
            k = np.array([q for q in law.kinks if abs(q) < 90] or [0.0])
            g = np.concatenate((k - 1e-8, k + 1e-8, (k[1:] + k[:-1]) / 2, [k[0] - 1, k[-1] + 1]))
            soft |= bool(np.any(law.tangent(g) < 0))
        if not soft:
            L = max(float(np.abs(gen.all_xy(spec)).max()), 1e-9)
            w = np.linalg.eigvalsh(nondim((K + K.T) / 2, L))
            ctx.check('psd', w[0] >= -1e-8 * max(w[-1], 1e-300) - np.max(nondim(tol, L)),
                      msg=f'eigenvalues {w}', spec=spec, strain=strain)
        if np.any(np.abs(exp) > 0):
            ctx.sig(desc(spec), mode)
        ctx.note(desc=desc(spec), strain=strain, K=K)


@M.family(1200, 15000)
def derivative(ctx):
    """K equals the derivative of the forces the library itself returns."""
    r = ctx.rng
    spec = gen.mixed_section(r, max_parts=2)
    refs = refs_of(spec)
    integ = gen.pick(r, ['marin', 'marin', 'fiber'])
    sec = build.section(spec, integ, **({'mesh_size': 0.02} if integ == 'fiber' else {}))
    calc = sec.section_calculator
    mode, strain = gen.strain_plane(r, spec)
    if mode == 'align' and integ == 'fiber':
        return
    if any(nominal_stiffness(m['law']) for m in spec['mats']):
        # documented: a law with an initial strain and no strain compatibility
        # has a constant stress and a small nominal stiffness
        ctx.ev('skipped_nominal')
        return
    # no jump of any law inside its part, no kink at a point, all continuous
    kap = math.hypot(strain[1], strain[2])
    xyall = gen.all_xy(spec)
    R = float(np.abs(xyall).max())
    h0 = 2e-7
    margin = 1e-5
    for s, law in refs[0]:
        e = strain[0] + strain[1] * np.array(s['ext'])[:, 1] - strain[2] * np.array(s['ext'])[:, 0]
        for q in law.kinks:
            jump = abs(float(law.stress(q + 1e-9)) - float(law.stress(q - 1e-9)))
            inside = e.min() - margin <= q <= e.max() + margin
            sc = float(np.max(np.abs(law.stress(np.array([q - 1e-9, q + 1e-9])))))
            if inside and (jump > 1e-3 * max(sc, 1e-3) or e.max() - e.min() < 1e-3 or integ == 'fiber'):
                ctx.ev('skipped_jump')
                return
        if not law.poly and integ == 'marin' and e.max() - e.min() < 1e-3:
            ctx.ev('skipped_nodes')
            return
    for y, z, A, law in refs[1]:
        e = strain[0] + strain[1] * z - strain[2] * y
        if any(abs(e - q) < 2 * margin for q in (*law.kinks, *law.snaps)):
            ctx.ev('skipped_kink_at_bar')
            return
    K = stiff(ctx, calc, strain)
    symmetric(ctx, K, spec, strain)
    h = [h0, h0 / R, h0 / R]
    F = np.zeros((3, 3))
    for j in range(3):
        a, b = list(strain), list(strain)
        a[j] -= h[j]
        b[j] += h[j]
        fa = np.array(ctx.call('forces', calc.integrate_strain_profile, a), float)
        fb = np.array(ctx.call('forces', calc.integrate_strain_profile, b), float)
        F[:, j] = (fb - fa) / (2 * h[j])
    # scale of K from the initial moduli
    sc = np.zeros((3, 3))
    for s, law in refs[0]:
        k = np.array([q for q in law.kinks if abs(q) < 90] or [0.0])
        E = float(np.max(np.abs(law.tangent(np.concatenate((k - 1e-7, k + 1e-7))))))
        sc += E * abs(ref.signed_area(s['ext'])) * np.array([[1, R, R], [R, R * R, R * R], [R, R * R, R * R]])
    for y, z, A, law in refs[1]:
        k = np.array([q for q in law.kinks if abs(q) < 90] or [0.0])
        E = float(np.max(np.abs(law.tangent(np.concatenate((k - 1e-7, k + 1e-7))))))
        sc += E * A * np.array([[1, R, R], [R, R * R, R * R], [R, R * R, R * R]])
    if has_epu(spec) and integ == 'marin':
        e = strain[0] + strain[1] * xyall[:, 1] - strain[2] * xyall[:, 0]
        for (s, law), (_, cut) in zip(refs[0], truncated_refs(spec)):
            ee = strain[0] + strain[1] * np.array(s['ext'])[:, 1] - strain[2] * np.array(s['ext'])[:, 0]
            g = np.linspace(ee.min() - margin, ee.max() + margin, 41)
            if np.any(law.stress(g) != cut.stress(g)) or np.any(law.tangent(g) != cut.tangent(g)):
                ctx.ev('skipped_truncation')
                return
    tol = 2e-3 * sc
    ctx.close('fd', K, F, 0, tol, key=f'fd:{integ}', msg=f'{mode} {desc(spec)}', spec=spec, strain=strain)
    ctx.sig('fd', desc(spec), mode, integ)


@M.family(600, 8000)
def fiber(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, max_parts=2)
    refs = refs_of(spec)
    mesh = gen.pick(r, [0.01, 0.003, 0.05, 0.3])
    sec = build.section(spec, 'fiber', mesh_size=mesh)
    calc = sec.section_calculator
    try:
        data = calc.integrator.integrate_strain_response_on_geometry(
            sec.geometry, [0.0, 0.0, 0.0], 'stress', mesh_size=mesh
        )[3]
        data = [tuple(np.atleast_1d(np.asarray(v, float)) for v in d[:3]) for d in data]
        if len(data) < len(spec['surfs']):
            data = None
    except (AttributeError, IndexError, TypeError):
        data = None
    for _ in range(3):
        mode, strain = gen.strain_plane(r, spec)
        if near_uniform_limit(spec, strain, refs):
            continue
        K = stiff(ctx, calc, strain)
        symmetric(ctx, K, spec, strain)
        if data is None:
            continue
        tot = np.zeros((3, 3))
        band = np.zeros((3, 3))
        for (s, law), d in zip(refs[0], data):
            e = strain[0] + strain[1] * d[1] - strain[2] * d[0]
            B = np.stack((np.ones_like(d[0]), d[1], -d[0]))
            t = law.tangent(e)
            tot += np.einsum('ik,jk,k->ij', B, B, t * d[2])
            nr = np.zeros(e.shape, bool)
            for q in (*law.snaps, *law.kinks):
                nr |= np.abs(e - q) <= 3e-6 + 3e-5 * abs(q)
            k = np.array([q for q in law.kinks if abs(q) < 90] or [0.0])
            Em = float(np.max(np.abs(law.tangent(np.concatenate((k - 1e-7, k + 1e-7, k))))))
            band += np.einsum('ik,jk,k->ij', np.abs(B), np.abs(B), np.where(nr, 2 * Em * d[2], 1e-9 * Em * d[2]))
        pt, pm = ref.section_integral([], refs[1], strain, 'modulus')
        ctx.close('fiber_sum', K, tot + pt, 0, band + 1e-9 * pm + 1e-9, key='fiber_sum',
                  msg=f'{mode} {desc(spec)}', spec=spec, strain=strain)
        ctx.sig('fib', desc(spec), mode, mesh)


@M.family(600, 6000)
def initial(ctx):
    """At zero strain the stiffness is the elastic one; agree between integrators."""
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=True, max_parts=2)
    spec['mats'] = [dict(law=gen.pick(r, [dict(kind='elastic', E=gen.uni(r, 1e3, 2e5)), gen.law_steel(r)]))
                    for _ in spec['mats']]
    refs = refs_of(spec)
    st = (0.0, 0.0, 0.0)
    exp, mag = ref.section_integral(refs[0], refs[1], st, 'modulus')
    K1 = stiff(ctx, build.section(spec, 'marin').section_calculator, st)
    ctx.close('initial', K1, exp, 0, 1e-9 * mag, key='initial', msg=desc(spec), spec=spec)
    K2 = stiff(ctx, build.section(spec, 'fiber', mesh_size=0.002).section_calculator, st)
    # centroid rule misses the fibres' own second moments (<= 0.2% A each)
    t = np.zeros((3, 3))
    for s, law in refs[0]:
        A = abs(ref.signed_area(s['ext']))
        E = float(law.tangent(np.array([0.0]))[0])
        t[1, 1] += E * A * 0.002 * A * 2
        t[2, 2] += E * A * 0.002 * A * 2
        t[1, 2] += E * A * 0.002 * A * 2
        t[2, 1] += E * A * 0.002 * A * 2
    ctx.close('initial_fiber', K2, exp, 0, 1e-7 * mag + t, key='initial_fiber', msg=desc(spec), spec=spec)
    ctx.sig('ini', desc(spec))


@M.family(16, 80)
def beyond(ctx):
    beyond_check(ctx, 'modulus')
