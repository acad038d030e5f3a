"""C25: section results do not depend on the unit system."""
import math

import numpy as np
from shapely import LineString, Polygon

from structuralcodes.geometry import SurfaceGeometry, add_reinforcement_circle, add_reinforcement_line

from .. import build, gen, geo, ref
from ..core import Module
from .c02 import desc
from .c08 import outcome
from .c10 import case, theta_of

M = Module(
    'C25',
    'random sections described in N-mm and again in another consistent unit '
    'system (usual systems and random powers of two) x every analysis; '
    'oracle: the N-mm result converted by its physical dimension, with the '
    'spread of the N-mm result over the absolute force tolerance of the '
    'searches; non-trivial = distinct (section, units, integrator, analysis)',
    required={'mon:units': 1500, 'mon:same-error': 20, 'op:strength': 50, 'op:mc': 40, 'op:nm': 20, 'op:nmm': 10,
              'op:mm': 10, 'op:profile': 40, 'op:cracked': 40, 'op:gross': 40, 'op:limits': 30, 'op:stress': 100,
              'op:modulus': 40, 'mon:mesh': 400, 'mon:cut': 600},
)

# name: (length unit per mm, force unit per N)
UNITS = {
    'N-m': (1e-3, 1.0), 'kN-m': (1e-3, 1e-3), 'kN-mm': (1.0, 1e-3), 'kN-cm': (0.1, 1e-3), 'N-cm': (0.1, 1.0),
    'kip-in': (1 / 25.4, 1 / 4448.2216), 'lbf-in': (1 / 25.4, 1 / 4.4482216), 'kip-ft': (1 / 304.8, 1 / 4448.2216),
    'kgf-cm': (0.1, 1 / 9.80665), 'tf-m': (1e-3, 1 / 9806.65), 'daN-cm': (0.1, 0.1),
}


def units(r, fiber):
    if fiber:  # the mesh program orders triangles longer and shorter than 1 differently
        return 'pow2', 2.0 ** int(r.integers(0, 7)), 2.0 ** int(r.integers(-12, 5))
    if r.integers(4) == 0:
        return 'pow2', 2.0 ** int(r.integers(-10, 6)), 2.0 ** int(r.integers(-12, 5))
    k = gen.pick(r, list(UNITS))
    return (k, *UNITS[k])


STRESS = ('E', 'fy', 'Eh', 'fc', 'Ec')


def law_in(sp, s):
    o = dict(sp)
    for k in STRESS:
        if o.get(k) is not None:
            o[k] = o[k] * s
    if o['kind'] == 'user':
        o['y'] = [v * s for v in o['y']]
    if o['kind'] == 'init':
        o['law'] = law_in(o['law'], s)
    if o['kind'] == 'par':
        o['laws'] = [law_in(q, s) for q in o['laws']]
    return o


def spec_in(spec, L, F):
    ring = lambda p: [(y * L, z * L) for y, z in p]  # noqa: E731
    return dict(
        spec,
        mats=[dict(m, law=law_in(m['law'], F / L / L)) for m in spec['mats']],
        surfs=[dict(s, ext=ring(s['ext']), holes=[ring(h) for h in s['holes']]) for s in spec['surfs']],
        points=[dict(p, y=p['y'] * L, z=p['z'] * L, d=p['d'] * L) for p in spec['points']],
    )


def op_in(op, L, F):
    """The arguments of an operation converted to the other units."""
    k = op[0]
    if k in ('stress', 'modulus'):
        return (k, [op[1][0], op[1][1] / L, op[1][2] / L])
    if k == 'check':
        return (k, op[1] * F)
    if k == 'strength':
        return (k, op[1], op[2] * F)
    if k == 'mc':
        kw = dict(op[1], n=op[1]['n'] * F)
        for q in ('chi_first',):
            if q in kw:
                kw[q] = kw[q] / L
        if 'chi' in kw:
            kw['chi'] = [c / L for c in kw['chi']]
        return (k, kw)
    if k == 'mm':
        return (k, dict(op[1], n=op[1]['n'] * F))
    if k == 'profile':
        n, my, mz = op[1]
        return (k, (n * F, my * F * L, mz * F * L), op[2])
    return op


def dims(op, f, shape, L, F):
    """Factor of field f of the result of op."""
    one = np.ones(shape)
    k = op[0]
    if k == 'stress':
        return np.array([F, F * L, F * L])
    if k == 'modulus':
        return F * np.array([[1, L, L], [L, L * L, L * L], [L, L * L, L * L]])
    if k == 'profile':
        return np.array([1, 1 / L, 1 / L])
    if k in ('limits', 'n_min', 'n_max') or f == 'n':
        return F * one
    if f == 'forces':
        return one * np.array([F, F * L, F * L])
    if f == 'strains':
        return one * np.array([1, 1 / L, 1 / L])
    if f in ('m_y', 'm_z'):
        return one * F * L
    if f.startswith('chi'):
        return one / L
    if f in ('eps_a', 'eps_axial', 'theta', 'e_theta'):
        return one
    g = {'area': L ** 2, 'area_reinforcement': L ** 2, 'ea': F, 'cy': L, 'cz': L, 'perimeter': L}
    if f in g:
        return one * g[f]
    if f.startswith('e_s'):
        return one * F * L
    if f.startswith('e_i'):
        return one * F * L * L
    if f[0] == 's':
        return one * L ** 3
    if f[0] == 'i':
        return one * L ** 4
    return None


def an_op(r, spec, lo, hi, kind, integ):
    # searches only for sections for which they are meant
    k = gen.pick(r, ['stress', 'modulus', 'gross', 'limits', 'check', 'profile'] if kind == 'mixed' else ['stress', 'stress', 'stress', 'modulus', 'gross', 'limits', 'check', 'strength', 'strength', 'mc',
                     'mc', 'nm', 'nmm', 'mm', 'profile', 'profile', 'cracked', 'cracked'])
    if k == 'cracked' and integ == 'fiber':
        k = 'gross'  # the mesh of the cut body is never the same
    th = theta_of(r)
    n = gen.pick(r, [0.0, lo + (hi - lo) * gen.uni(r, 0.05, 0.95), 0.3 * lo, lo * 1.5 - 1e3, hi * 1.5 + 1e3])
    if k in ('stress', 'modulus'):
        return (k, [float(v) for v in gen.strain_plane(r, spec)[1]])
    if k in ('gross', 'limits'):
        return (k,)
    if k == 'check':
        return (k, n)
    if k == 'strength':
        return (k, th, n)
    if k == 'mc':
        kw = dict(theta=th, n=n)
        if r.integers(2):
            kw.update(num_pre_yield=int(r.integers(1, 5)), num_post_yield=int(r.integers(1, 5)), chi_first=1e-8)
        else:
            kw['chi'] = [float(v) for v in -0.004 / spec['size'] * np.abs(r.normal(size=int(r.integers(1, 4))))
                         * gen.logu(r, 0.1, 30)]
        return (k, kw)
    if k == 'nm':
        return (k, dict(theta=th, num_3=3, num_4=3, complete_domain=bool(r.integers(2))))
    if k == 'nmm':
        return (k, dict(num_theta=gen.pick(r, [2, 3, 4]), num_3=3, num_4=2))
    if k == 'mm':
        return (k, dict(num_theta=gen.pick(r, [2, 3, 5]), n=n))
    if k == 'profile':
        f = gen.pick(r, [0.01, 0.1, 0.4])
        s = spec['size'] * max(abs(lo), abs(hi)) * 0.1
        n = gen.pick(r, [0.0, 0.3 * lo, lo + (hi - lo) * gen.uni(r, 0.05, 0.95)])
        return (k, (n, float(f * s * r.normal()), float(f * s * r.normal())), dict(initial=bool(r.integers(2))))
    return (k, th)


def variants(op, dn):
    """The same call with the axial force or the angle changed a little."""
    out = []
    for d in (1, -1, 0.4, -0.6, 1e-3):
        o = list(op)
        if op[0] == 'strength':
            o[1], o[2] = o[1] + d * 3e-15, o[2] + d * dn
        elif op[0] in ('mc', 'mm'):
            o[1] = dict(o[1], n=o[1]['n'] + d * dn)
        elif op[0] == 'check':
            o[1] *= 1 + 1e-12 * d
        elif op[0] == 'profile':
            o[1] = tuple(v * (1 + 1e-9 * d) for v in o[1])
        elif op[0] == 'stress' or op[0] == 'modulus':
            o[1] = [o[1][0] * (1 + 1e-12 * d) + 1e-16 * d, *o[1][1:]]
        elif op[0] in ('nm', 'cracked'):
            if op[0] == 'nm':
                o[1] = dict(o[1], theta=o[1]['theta'] + 1e-13 * d)
            else:
                o[1] += 1e-13 * d
        out.append(tuple(o))
    return out


def size_of(spec):
    return float(np.max(np.ptp(gen.all_xy(spec), axis=0)))


@M.family(900, 9000, timeout=200)
def converted(ctx):
    r = ctx.rng
    if r.integers(4) == 0:
        kind, spec = 'mixed', gen.mixed_section(r, poly_only=bool(r.integers(2)))
    else:
        kind, spec = case(r, bool(r.integers(2)))
    spec['size'] = size_of(spec)
    integ = gen.pick(r, ['marin', 'marin', 'fiber'])
    kw = {} if integ == 'marin' else dict(mesh_size=gen.pick(r, [0.01, 0.05, 0.3]))
    name, L, F = units(r, integ == 'fiber')
    other = spec_in(spec, L, F)
    ref_sec = build.section(spec)
    v, e = ctx.attempt('limits', ref_sec.section_calculator.calculate_limit_axial_load)
    if e is not None or not np.all(np.isfinite(v)):
        lo, hi = -1e6, 1e6
    else:
        lo, hi = float(min(v)), float(max(v))
    for _ in range(3):
        op = an_op(r, spec, lo, hi, kind, integ)
        ctx.ev('op:' + op[0])
        ctx.ev('units:' + name)
        ctx.sig(desc(spec), name, L, F, integ, op[0])
        w = dict(spec=spec, units=(name, L, F), integrator=integ, mesh=kw, op=op)
        dn = 0.02 * max(1.0, 1.0 / F) + 1e-12 * max(abs(lo), abs(hi))
        exp = outcome(build.section(spec, integ, **kw), op)
        got = outcome(build.section(other, integ, **kw), op_in(op, L, F))
        vs = None

        def others():
            nonlocal vs
            if vs is None:
                vs = [outcome(build.section(spec, integ, **kw), o) for o in variants(op, dn)]
            return vs

        if exp[0] == 'exc' or got[0] == 'exc':
            # a diverging search ends in either way
            same = exp[0] == got[0] and (exp[1] == got[1] or op[0] == 'profile')
            if not same and any(o[:2] != exp[:2] for o in others()):
                ctx.ev('unstable-call')
                continue
            ctx.check('same-error', same, key=f'{op[0]}:error', msg=f'N-mm: {str(exp)[:300]} {name}: {str(got)[:300]}', **w)
            continue
        g, x = got[1], exp[1]
        if not ctx.check('units', sorted(g) == sorted(x), key=f'{op[0]}:fields', msg=f'{sorted(g)} {sorted(x)}', **w):
            continue
        S = spec['size']
        for f in x:
            if f == 'mass' or (f == 'perimeter' and len(spec['surfs']) > 1):
                continue  # unit of the density; contact of parts within round-off
            c = dims(op, f, x[f].shape, L, F)
            if c is None:
                continue
            if not ctx.check('units', g[f].shape == x[f].shape, key=f'{op[0]}:{f}:shape', msg=f'{g[f].shape} {x[f].shape}', **w):
                break
            back = g[f] / c
            if np.allclose(back, x[f], rtol=1e-10, atol=0, equal_nan=True):
                ctx.ev('mon:units')
                continue
            if f in ('theta', 'e_theta') and op[0] in ('gross', 'cracked'):
                p = 'e_' if f[0] == 'e' else ''
                if abs(x[p + 'i11'] - x[p + 'i22']) < 1e-5 * abs(x[p + 'i11']):
                    continue
                far = 1e-3 + (op[0] == 'cracked') * 1e-3 * abs(x[p + 'i11']) / abs(x[p + 'i11'] - x[p + 'i22'])
                ctx.close('units', math.cos(2 * back), math.cos(2 * x[f]), 0, far, key=f'{op[0]}:{f}', **w)
                continue
            atol = tolerance(op, f, x, S, lo, hi, spec, dn, L)
            sp = [np.abs(o[1][f] - x[f]) if o[0] == 'ok' and o[1][f].shape == x[f].shape else np.inf for o in others()]
            if f == 'eps_axial' and np.shape(back) and op[0] == 'mc':
                # the strain may be sensitive: equilibrium of the other plane in N-mm instead
                c = build.section(spec, integ, **kw).section_calculator
                ns = [c.integrate_strain_profile([q, p, z])[0] for q, p, z in
                      zip(back, g['chi_y'] * L, g['chi_z'] * L)]
                ctx.close('units', ns, np.full(len(ns), op[1]['n']), 0, dn + 1e-9 * max(abs(lo), abs(hi)), key='mc:equilibrium', **w)
                continue
            spread = np.max([np.broadcast_to(q, x[f].shape) for q in sp], axis=0) if x[f].size else 0.0
            if not np.all(np.isfinite(spread)):
                ctx.ev('unstable-call')
                break
            ctx.close('units', back, x[f], 1e-8, atol + 5 * spread + 0.3 * np.max(spread, initial=0), key=f'{op[0]}:{f}', **w)


@M.family(250, 4000)
def mesh(ctx):
    """Fibre meshes in any units: same body, no fibre above the limit."""
    r = ctx.rng
    spec = gen.mixed_section(r) if r.integers(2) else gen.rc_section(r)
    name, L, F = units(r, False)
    if r.integers(3) == 0:
        # very small numbers: a slender part in a large unit of length
        L = float(10.0 ** -r.integers(3, 8))
        name = f'1e{round(math.log10(L))}'
    size = gen.pick(r, [0.001, 0.01, 0.05, 0.2, 1.0])
    sec = build.section(spec_in(spec, L, F), 'fiber', mesh_size=size)
    w = dict(spec=spec, units=(name, L, F), mesh=size)
    data = ctx.call('triangulate', sec.section_calculator.integrator.triangulate, sec.geometry, size)
    xy = np.max(np.abs(gen.all_xy(spec)))
    for s, tri in zip(spec['surfs'], data):
        A, ay, az = geo.moments([s])[0][:3]
        y, z, a = (np.asarray(v, float) for v in tri[:3])
        y, z, a = y / L, z / L, a / L / L
        ctx.close('mesh', [a.sum(), (a * y).sum(), (a * z).sum()], [A, ay, az], 0, 1e-9 * A * np.array([1, xy, xy]),
                  key='mesh-moments', **w)
        ctx.check('mesh', np.max(a) <= size * A * (1 + 1e-9) and len(a) >= 1 / size, key='mesh-size',
                  msg=f'largest {np.max(a)} of {A} with {size}, {len(a)} fibres', **w)
    base = build.section(spec, 'fiber', mesh_size=size)
    n0 = [np.size(q[0]) for q in base.section_calculator.integrator.triangulate(base.geometry, size)]
    n1 = [np.size(q[0]) for q in data]
    ctx.check('mesh', len(n0) == len(n1) and all(abs(p - q) <= 20 + 1.5 * p for p, q in zip(n0, n1)), key='mesh-count',
              msg=f'{n0} fibres in mm, {n1} in {name}', **w)
    bad = gen.pick(r, [0.0, -gen.uni(r, 0, 2), 1 + gen.uni(r, 1e-6, 5), 2])
    ctx.rejects('mesh-refused', 'mesh_size', lambda: build.section(spec, 'fiber', mesh_size=bad).section_calculator.integrate_strain_profile([1e-4, 0.0, 0.0]),
                key='mesh-size-refused')
    ctx.sig('mesh', desc(spec), name, L, size)


@M.family(900, 15000)
def cut(ctx):
    """Geometry operations give the same body in any units."""
    r = ctx.rng
    spec = gen.mixed_section(r) if r.integers(2) else gen.rc_section(r)
    s0 = gen.pick(r, spec['surfs'])
    name, L, F = units(r, False)
    if r.integers(3) == 0:
        L = float(10.0 ** r.integers(-5, 4))
        name = f'1e{round(math.log10(L))}'
    mat = build.material(spec['mats'][s0['mat']])
    xy = np.array(s0['ext'])
    th = theta_of(r)
    n = np.array([-math.sin(th), math.cos(th)])
    d = np.sort(xy @ n)
    h = d[-1] - d[0]
    f = gen.pick(r, [gen.uni(r, 0.02, 0.98), gen.logu(r, 1e-4, 0.02), 1 - gen.logu(r, 1e-4, 0.02)])
    off = d[0] + f * h
    off2 = off + h * gen.logu(r, 1e-4, 0.5)
    c = xy.mean(0)
    what = gen.pick(r, ['split', 'split', 'split-line', 'two', 'bars', 'bars', 'circle', 'subtract'])
    ctx.sig(what, s0.get('shape'), name, L)
    A = abs(geo.moments([s0])[0][0])
    S = float(np.max(np.abs(xy))) + h
    k1, k2 = int(r.integers(2, 9)), gen.uni(r, 0.02, 0.98)
    fl = dict(first=bool(r.integers(4)), last=bool(r.integers(4)))
    mode = gen.pick(r, ['n', 's', 'exact', 'both'])
    arc = 0.2 + 5 * k2 if r.integers(2) else 2 * math.pi - gen.logu(r, 1e-6, 0.5)
    w = dict(surf=s0, units=(name, L), theta=th, offset=off, what=what, arc=arc)

    def body(u):
        ring = lambda p: [(y * u, z * u) for y, z in p]  # noqa: E731
        return SurfaceGeometry(Polygon(ring(s0['ext']), [ring(q) for q in s0['holes']] or None), mat)

    def line(o, u):
        t = np.array([math.cos(th), math.sin(th)])
        m = t * float(t @ c) + n * o
        return LineString([tuple((m - t * 4 * S) * u), tuple((m + t * 4 * S) * u)])

    def sums(polys):
        q = [geo.surf_of(p) for p in polys]
        return np.array(geo.moments(q)[0][:3]) if q else np.zeros(3)

    def result(u):
        g = body(u)
        scale = np.array([u * u, u**3, u**3])
        if what in ('split', 'split-line'):
            p = (c + n * (off - c @ n)) * u
            a, b = g.split((tuple(p), th) if what == 'split' else line(off, u))
            # above and below follow the direction of the line
            return np.array([sums(a) / scale, sums(b) / scale])
        if what == 'two':
            res = g.split_two_lines((line(off, u), line(off2, u)))
            return sums([q for q in getattr(res, 'geoms', [res]) if q.geom_type == 'Polygon' and not q.is_empty]) / scale
        if what == 'subtract':
            t = 0.5 * h * k2
            e = np.array([[-t, -t], [t, -t], [t, t], [-t, t]]) * u + xy[0] * u
            res = g - SurfaceGeometry(Polygon(e), mat)
            return np.array([res.area]) / u / u
        p1, p2, D = c * u, (c + h * np.array([math.cos(th), math.sin(th)])) * u, 0.01 * h * u
        if what == 'bars':
            full = h * u
            q = {'n': dict(n=k1), 's': dict(s=full / (k1 + k2)), 'exact': dict(s=full / k1), 'both': dict(n=k1 + 1, s=full / k1)}[mode]
            res = add_reinforcement_line(g, tuple(p1), tuple(p2), D, mat, **q, **fl)
        else:
            R, a0, a1 = h * u, th, th + arc
            full = R * (a1 - a0)
            q = {'n': dict(n=k1), 's': dict(s=full / (k1 + k2)), 'exact': dict(s=full / k1), 'both': dict(n=k1 + 1, s=full / k1)}[mode]
            res = add_reinforcement_circle(g, tuple(p1), R, D, mat, start_angle=a0, stop_angle=a1, **q, **fl)
        return np.array([[b.x / u, b.y / u, b.diameter / u, b.area / u / u] for b in getattr(res, 'point_geometries', [])])

    exp, e0 = ctx.attempt('cut', result, 1.0)
    got, e1 = ctx.attempt('cut', result, L)
    if e0 is not None or e1 is not None:
        ctx.check('cut-error', type(e0) is type(e1), key=f'cut:{what}:error', msg=f'{e0!r} in mm, {e1!r} in {name}', **w)
        return
    if not ctx.check('cut', got.shape == exp.shape, key=f'cut:{what}:shape', msg=f'{got.shape} {exp.shape}', **w):
        return
    # round-off of the constructed lines, long ones for steep angles
    tan = abs(math.tan(th)) if what == 'split' and abs(math.cos(th)) > 1e-8 else 1.0
    tol = (1e-9 + 1e-14 * tan) * (S if what in ('bars', 'circle') else A + S * S * 0.01)
    m = np.array([1, S, S]) if exp.ndim and exp.shape[-1] == 3 and what not in ('bars', 'circle') else 1.0
    ctx.close('cut', got, exp, 1e-9, tol * m, key=f'cut:{what}', **w)


def emax0(spec):
    return max(float(np.max(np.abs(ref.ref_law(m['law']).tangent(np.array([-1e-9, 0.0, 1e-9]))))) for m in spec['mats'])


def tolerance(op, f, x, S, lo, hi, spec, dn, L):
    a = np.max(np.abs(x[f])) if x[f].size else 0.0
    N = max(abs(lo), abs(hi))
    if op[0] in ('stress', 'modulus'):
        s = np.max(np.abs(gen.all_xy(spec))) + 1.0
        d = {'stress': np.array([1, s, s]), 'modulus': np.array([[1, s, s], [s, s * s, s * s], [s, s * s, s * s]])}[op[0]]
        return 1e-11 * (N if op[0] == 'stress' else abs(x['K'][0, 0])) * d + 1e-10 * a
    if op[0] in ('strength', 'mc', 'mm') and f in ('n', 'm_y', 'm_z', 'forces'):
        return 1e-8 * a + 5 * dn * (1 if f == 'n' else S + np.max(np.abs(gen.all_xy(spec))))
    if f in ('chi_y', 'chi_z'):
        e = max([np.max(np.abs(x[q])) for q in ('eps_a', 'eps_axial') if q in x and x[q].size] or [0.0])
        # a curvature search starts at a fixed curvature of 1e-13 and stops
        # with an unbalance of dn
        return 1e-8 * (max(np.max(np.abs(x[q])) for q in ('chi_y', 'chi_z') if x[q].size) + e / S) + 2e-13 * max(1, L) + 0.1 * dn / N / S
    if f in ('forces', 'strains'):
        t = 1e-8 * np.max(np.abs(x[f]), axis=tuple(range(x[f].ndim - 1)))
        if f == 'forces':
            t = t + 1e-8 * (np.max(t) + np.max(np.abs(x[f][..., 0])) * S)
        else:
            t = t + 1e-7 * np.max(np.abs(x[f][..., 0])) * np.array([0, 1 / S, 1 / S])
        return t
    if op[0] in ('gross', 'cracked'):
        s = np.max(np.abs(gen.all_xy(spec))) + 1.0
        A, e = float(x['area']), float(x['ea']) if 'ea' in x else 0.0
        dA, de = 1e-10 * A, 1e-10 * e
        if op[0] == 'cracked':
            # the neutral axis is found for an unbalance of dn at strains of 1e-2
            dA += 3 * (1.5 * S) ** 2 * dn / (1e-2 * e)
            de += dA * emax0(spec)
        if f.startswith('e_s') or f == 'ea':
            return de * (s if f != 'ea' else 1)
        if f.startswith('e_i'):
            return de * s * s
        if f == 'perimeter':
            return 1e-9 * a + 20 * dA / S + 1e-3 * a * (op[0] == 'cracked')
        if f[0] == 'c':
            return 1e-9 * s + 4 * s * de / e
        return {'s': dA * s, 'i': dA * s * s}.get(f[0], dA)
    return 1e-8 * a
