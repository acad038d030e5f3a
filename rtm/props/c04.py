"""C04: section response does not depend on frame or decomposition."""
import copy
import math

import numpy as np
from shapely import LineString, Polygon

from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry
from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

from .. import build, gen
from ..core import Module
from .c02 import desc, near_uniform_limit, refs_of, tol_vec, unit_size
from .c03 import tol_mat
from .c10 import case, n_between, theta_of

M = Module(
    'C04',
    'random sections x isometries (translation, rotation, mirror, also through '
    'the geometry operations of the library) and x descriptions of the same '
    'body (order, start vertex, orientation, extra vertices, parts split along '
    'lines, bars split, separate material objects); oracle: metamorphic '
    'relation between the two responses; non-trivial = distinct (section, '
    'transformation) pairs',
    required={'mon:forces': 300, 'mon:stiffness': 200, 'mon:gross': 150, 'mon:strength': 60,
              'mon:union': 100, 'mon:cracked': 40, 'mon:domain': 20},
)


class Iso:
    """q -> R q + d with q = (y, z)."""

    def __init__(self, R, d):
        self.R, self.d = np.array(R, float), np.array(d, float)
        R, d = self.R, self.d
        # v = (1, z, -y); eps = s.v; (N, My, Mz) = integral of sigma v
        self.A = np.array([[1, 0, 0], [d[1], R[1, 1], -R[1, 0]], [-d[0], -R[0, 1], R[0, 0]]])

    def pts(self, a):
        return np.asarray(a, float) @ self.R.T + self.d

    def strain(self, s):
        return np.linalg.solve(self.A.T, np.asarray(s, float))

    def forces(self, f):
        return self.A @ np.asarray(f, float)

    def stiff(self, K):
        return self.A @ np.asarray(K, float) @ self.A.T

    def theta(self, th):
        # the direction of the curvature vector does not depend on d
        v = np.linalg.solve(self.A.T, [0, math.cos(th), math.sin(th)])
        return math.atan2(v[2], v[1])


def iso(r, size):
    k = gen.pick(r, ['translate', 'rotate', 'mirror', 'all', 'all', 'quarter', 'far', 'slight'])
    a, m, d = 0.0, False, np.zeros(2)
    if k in ('rotate', 'all'):
        a = gen.uni(r, -math.pi, math.pi)
    if k == 'slight':
        # next to no motion, also about a quarter turn
        a = gen.pick(r, [0.0, 0.0, 0.5, 1.0, -0.5]) * math.pi + gen.pick(r, [-1, 1]) * gen.logu(r, 1e-9, 1e-2)
        if r.integers(2):
            d = gen.logu(r, 1e-9, 1e-2) * size * np.array([gen.pick(r, [-1, 0, 1]), 1.0])
    if k == 'quarter':
        a = gen.pick(r, [0.5, 1.0, -0.5, 1.5]) * math.pi
    if k == 'mirror' or (k == 'all' and r.integers(2)):
        m, a = True, gen.uni(r, -math.pi, math.pi) if r.integers(2) else gen.pick(r, [0, 0.5, 1]) * math.pi
    if k in ('translate', 'all'):
        d = r.uniform(-2, 2, 2) * size
    if k == 'far':
        d = r.uniform(-1, 1, 2) * size * 50
    c, s = math.cos(a), math.sin(a)
    R = np.array([[c, -s], [s, c]])
    if m:
        R = R @ np.array([[1.0, 0], [0, -1]])
    return k, a, m, Iso(R, d)


def moved_spec(spec, T):
    out = copy.deepcopy(spec)
    tup = lambda ring: [tuple(map(float, q)) for q in T.pts(ring)]  # noqa: E731
    for s in out['surfs']:
        s['ext'] = tup(s['ext'])
        s['holes'] = [tup(h) for h in s['holes']]
    for p in out['points']:
        p['y'], p['z'] = map(float, T.pts([[p['y'], p['z']]])[0])
    return out


def moved_geometry(ctx, spec, a, m, T):
    """The same motion through the operations of the library."""
    g = build.geometry(spec)
    if m:
        # R = rot(a) * diag(1, -1) mirrors about the line at a / 2
        g = ctx.call('mirror', g.mirror, LineString([(0, 0), (math.cos(a / 2), math.sin(a / 2))]))
    elif a:
        if ctx.rng.integers(2):
            g = ctx.call('rotate', g.rotate, a)
        else:
            g = ctx.call('rotate', g.rotate, math.degrees(a), use_radians=False)
    if np.any(T.d):
        g = ctx.call('translate', g.translate, float(T.d[0]), float(T.d[1]))
    return g


@M.family(1600, 14000)
def frames(ctx):
    """Internal forces and stiffness in another frame."""
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=bool(r.integers(3)), size=unit_size(r))
    size = float(np.max(np.ptp(gen.all_xy(spec), axis=0)))
    k, a, m, T = iso(r, size)
    refs = refs_of(spec)
    other = moved_spec(spec, T)
    refs2 = refs_of(other)
    lib = bool(r.integers(2))
    geo2 = moved_geometry(ctx, spec, a, m, T) if lib else build.geometry(other)
    c1 = build.section(spec).section_calculator
    c2 = GenericSection(geo2).section_calculator
    for _ in range(2):
        mode, st = gen.strain_plane(r, spec)
        if k == 'slight' and mode != 'uniform' and r.integers(2):
            st = [st[0], *gen.pick(r, [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)])]
            st[1:] = [q * gen.uni(r, 1e-4, 5e-3) / size for q in st[1:]]
        st2 = [float(v) for v in T.strain(st)]
        if mode == 'uniform':
            st2[1:] = [0.0, 0.0]
        if near_uniform_limit(spec, st, refs):
            ctx.ev('skipped_band')
            continue
        w = dict(spec=spec, motion=(k, a, m, T.d), strain=st, lib=lib)
        f1 = ctx.call('integrate', c1.integrate_strain_profile, list(st))
        f2 = ctx.call('integrate', c2.integrate_strain_profile, st2)
        t1, t2 = tol_vec(spec, st, refs), tol_vec(other, st2, refs2)
        tol = np.abs(T.A) @ t1 + t2
        # round-off of the strain at a distance
        tol += 1e-11 * np.array([1, size, size]) * tol[0] * 1e10 * 1e-10
        ctx.close('forces', f2, T.forces(f1), 0, 10 * tol, key='forces:' + k, **w)
        K1 = ctx.call('stiffness', c1.integrate_strain_profile, list(st), 'modulus')
        K2 = ctx.call('stiffness', c2.integrate_strain_profile, st2, 'modulus')
        kt = np.abs(T.A) @ tol_mat(spec, st, refs) @ np.abs(T.A).T + tol_mat(other, st2, refs2)
        if mode != 'align':
            ctx.close('stiffness', K2, T.stiff(K1), 0, 10 * kt, key='stiffness:' + k, **w)
        ctx.sig('frame', desc(spec), k, mode, lib)
    ctx.note(desc=desc(spec), motion=k, lib=lib)


def gross_matrix(g, pre=''):
    v = lambda n: float(getattr(g, pre + n))  # noqa: E731
    return np.array([[v('ea') if pre else 0, v('sy'), -v('sz')],
                     [v('sy'), v('iyy'), -v('iyz')], [-v('sz'), -v('iyz'), v('izz')]])


def gross_compare(ctx, g1, g2, T, R1, R2, w, mon='gross', key='', full=True):
    R = R1 + R2
    A_all = float(g1.area + g1.area_reinforcement)
    for n in ('area', 'area_reinforcement', 'ea', 'mass'):
        ctx.close(mon, getattr(g2, n), getattr(g1, n), 1e-9, 1e-9 * abs(g1.ea) if n == 'ea' else 1e-9 * A_all, key=key + n, **w)
    if full and g1.perimeter:
        ctx.close(mon, g2.perimeter, g1.perimeter, 1e-9, key=key + 'perimeter', **w)
    L = np.array([1, R, R])
    for pre, a0 in (('', A_all), ('e_', float(g1.ea))):
        a1 = a0
        K1, K2 = np.zeros((3, 3)), np.zeros((3, 3))
        for K, g in ((K1, g1), (K2, g2)):
            v = lambda n: float(getattr(g, pre + n))  # noqa: E731
            K[:] = [[a1, v('sy'), -v('sz')], [v('sy'), v('iyy'), -v('iyz')], [-v('sz'), -v('iyz'), v('izz')]]
        ctx.close(mon, K2, T.stiff(K1), 0, 1e-9 * abs(a0) * np.outer(L, L), key=key + pre + 'moments', **w)
        I1, I2 = ([float(getattr(g, pre + n)) for n in ('i11', 'i22')] for g in (g1, g2))
        ctx.close(mon, I2, I1, 0, 1e-8 * abs(a0) * R * R, key=key + pre + 'principal', **w)
    c = T.pts([[g1.cy, g1.cz]])[0]
    ctx.close(mon, [g2.cy, g2.cz], c, 0, 1e-8 * R, key=key + 'centroid', **w)


def radius(spec):
    a = gen.all_xy(spec)
    return float(np.max(np.hypot(a[:, 0], a[:, 1])))


@M.family(1000, 5000)
def gross(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, size=unit_size(r), max_parts=3)
    size = float(np.max(np.ptp(gen.all_xy(spec), axis=0)))
    k, a, m, T = iso(r, size)
    other = moved_spec(spec, T)
    mats = [build.material(x) for x in spec['mats']]
    E = [float(np.asarray(x.constitutive_law.get_tangent(eps=0)).item()) for x in mats]
    if any(e <= 0 for e in E):
        ctx.ev('no_stiffness')
        return
    lib = bool(r.integers(2))
    g1 = ctx.call('gross', lambda: build.section(spec).gross_properties)
    geo = moved_geometry(ctx, spec, a, m, T) if lib else build.geometry(other)
    g2 = ctx.call('gross', lambda: GenericSection(geo).gross_properties)
    w = dict(spec=spec, motion=(k, a, m, T.d), lib=lib)
    # transformed with the larger of the two distances
    gross_compare(ctx, g1, g2, T, radius(spec), radius(other), w, key=k + ':')
    ctx.sig('gross', desc(spec), k, lib)


def strength_pair(ctx, c1, c2, T, spec, th, n, w, key, R):
    a = ctx.call('bending_strength', c1.calculate_bending_strength, th, n)
    b, ex = ctx.attempt('bending_strength', c2.calculate_bending_strength, T.theta(th), n)
    if ex is not None:
        ctx.fail(key + 'raises', repr(ex), **w)
        return
    s1, s2 = np.array([a.eps_a, a.chi_y, a.chi_z], float), np.array([b.eps_a, b.chi_y, b.chi_z], float)
    F1, F2 = np.array([a.n, a.m_y, a.m_z], float), np.array([b.n, b.m_y, b.m_z], float)
    nn = max(abs(float(c1.n_min)), abs(float(c1.n_max)))
    L = spec['size']
    ft = np.array([2e-2 + 1e-8 * nn, (1 + 1e-7 * nn) * L, (1 + 1e-7 * nn) * L])
    ft[1:] += R * ft[0]
    ctx.close('strength', F2, T.forces(F1), 0, ft, key=key + 'forces', msg=f'planes {s1} {s2}', **w)
    # strains of the section in its own frame
    back = T.A.T @ s2
    xy = gen.all_xy(spec)
    v = np.column_stack((np.ones(len(xy)), xy[:, 1], -xy[:, 0]))
    e1, e2 = v @ s1, v @ back
    ctx.close('strength', e2, e1, 0, 1e-5 * np.max(np.abs(e1)) + 1e-9, key=key + 'strains', msg=f'planes {s1} {s2}', **w)


@M.family(480, 3000)
def strength(ctx):
    r = ctx.rng
    kind, spec = case(r, bool(r.integers(4)))
    size = spec['size']
    k, a, m, T = iso(r, size)
    if k == 'far':
        T = Iso(T.R, T.d / 10)
    other = moved_spec(spec, T)
    lib = bool(r.integers(2))
    c1 = build.section(spec).section_calculator
    geo = moved_geometry(ctx, spec, a, m, T) if lib else build.geometry(other)
    c2 = GenericSection(geo).section_calculator
    lo, hi = float(c1.n_min), float(c1.n_max)
    w = dict(spec=spec, motion=(k, a, m, T.d), lib=lib)
    ctx.close('strength', [c2.n_min, c2.n_max], [lo, hi], 1e-8, 1e-8 * (hi - lo), key=k + ':limits', **w)
    th = theta_of(r)
    n = gen.pick(r, [0.0, lo * gen.uni(r, 0, 0.6), lo + (hi - lo) * gen.uni(r, 0.05, 0.95)])
    if not lo < n < hi:
        n = 0.5 * (lo + hi)
    w.update(theta=th, n=n)
    strength_pair(ctx, c1, c2, T, spec, th, n, w, k + ':', radius(spec) + radius(other))
    if r.integers(3) == 0:
        kw = dict(num_1=1, num_2=1, num_3=3, num_4=2, num_5=1, num_6=2)
        d1 = ctx.call('nm', c1.calculate_nm_interaction_domain, th, **kw)
        d2 = ctx.call('nm', c2.calculate_nm_interaction_domain, T.theta(th), **kw)
        R = radius(spec) + radius(other)
        xy = gen.all_xy(spec)
        v = np.column_stack((np.ones(len(xy)), xy[:, 1], -xy[:, 0]))
        refs = refs_of(spec)
        for i in range(len(d1.strains)):
            e1, e2 = v @ d1.strains[i], v @ (T.A.T @ d2.strains[i])
            ctx.close('domain', e2, e1, 0, 1e-9 * np.max(np.abs(e1)) + 1e-13 * R / size, key=k + ':domain-strains', msg=f'row {i}', **w)
            t1 = tol_vec(spec, d1.strains[i], refs)
            tol = np.abs(T.A) @ t1 + tol_vec(other, d2.strains[i], refs)
            ctx.close('domain', d2.forces[i], T.forces(d1.forces[i]), 0, 100 * tol, key=k + ':domain-forces', msg=f'row {i}', **w)
    ctx.sig('strength', desc(spec), k, lib, round(th, 2))


@M.family(240, 1500)
def cracked(ctx):
    r = ctx.rng
    spec = gen.rc_section(r)
    k, a, m, T = iso(r, spec['size'])
    if k == 'far':
        T = Iso(T.R, T.d / 10)
    other = moved_spec(spec, T)
    lib = bool(r.integers(2))
    th = theta_of(r)
    s1 = build.section(spec)
    s2 = GenericSection(moved_geometry(ctx, spec, a, m, T) if lib else build.geometry(other))
    w = dict(spec=spec, motion=(k, a, m, T.d), lib=lib, theta=th)
    g1, e1 = ctx.attempt('cracked', calculate_elastic_cracked_properties, s1, th)
    g2, e2 = ctx.attempt('cracked', calculate_elastic_cracked_properties, s2, T.theta(th))
    if e1 is not None or e2 is not None:
        ctx.check('cracked', (e1 is None) == (e2 is None), key='cracked-raises', msg=f'{e1!r} {e2!r}', **w)
        return
    R = radius(spec) + radius(other)
    A = float(g1.area + g1.area_reinforcement)
    # the neutral axis is found by bisection
    L = np.array([1, R, R])
    for pre, a0 in (('', A), ('e_', float(g1.ea))):
        Ks = []
        for g in (g1, g2):
            v = lambda n: float(getattr(g, pre + n))  # noqa: E731
            aa = float(g.area + g.area_reinforcement) if not pre else float(g.ea)
            Ks.append(np.array([[aa, v('sy'), -v('sz')], [v('sy'), v('iyy'), -v('iyz')], [-v('sz'), -v('iyz'), v('izz')]]))
        ctx.close('cracked', Ks[1], T.stiff(Ks[0]), 0, 1e-5 * abs(a0) * np.outer(L, L), key='cracked' + pre, **w)
    ctx.sig('cracked', desc(spec), k, lib)


# ------------------------------------------------------------ decomposition
def cut(r, surf):
    """Split a plain surface along a random line: list of plain surfaces."""
    poly = build.polygon(surf)
    x0, y0, x1, y1 = poly.bounds
    c = np.array([gen.uni(r, x0, x1), gen.uni(r, y0, y1)])
    a = gen.pick(r, [0.0, math.pi / 2, gen.uni(r, 0, math.pi)])
    u, v = np.array([math.cos(a), math.sin(a)]), np.array([-math.sin(a), math.cos(a)])
    B = 4 * max(x1 - x0, y1 - y0)
    half = [Polygon([c - B * u, c + B * u, c + B * u + s * B * v, c - B * u + s * B * v]) for s in (1, -1)]
    out = []
    for h in half:
        q = poly.intersection(h)
        for p in getattr(q, 'geoms', [q]):
            if isinstance(p, Polygon) and p.area > 1e-9 * poly.area:
                out.append({**surf, 'ext': [tuple(v) for v in p.exterior.coords[:-1]],
                            'holes': [[tuple(v) for v in i.coords[:-1]] for i in p.interiors]})
    if abs(sum(build.polygon(s).area for s in out) - poly.area) > 1e-10 * poly.area:
        return None
    return out


def lib_cut(ctx, r, spec, i):
    """The same through SurfaceGeometry.split."""
    surf = spec['surfs'][i]
    mat = build.material(spec['mats'][surf['mat']])
    g = SurfaceGeometry(build.polygon(surf), mat)
    x0, y0, x1, y1 = g.polygon.bounds
    up, low = ctx.call('split', g.split, ((gen.uni(r, x0, x1), gen.uni(r, y0, y1)), gen.uni(r, -1.5, 1.5)))
    return [{**surf, 'ext': [tuple(v) for v in p.exterior.coords[:-1]],
             'holes': [[tuple(v) for v in h.coords[:-1]] for h in p.interiors]} for p in (*up, *low)]


def redescribe(ctx, r, spec):
    """Another description of the same body: (label, spec)."""
    out = copy.deepcopy(spec)
    how = []
    if r.integers(2):
        how.append('order')
        r.shuffle(out['surfs'])
        r.shuffle(out['points'])
    if r.integers(2):
        how.append('vertices')
        for s in out['surfs']:
            k = int(r.integers(len(s['ext'])))
            s['ext'] = s['ext'][k:] + s['ext'][:k]
            if r.integers(2):
                s['ext'] = s['ext'][::-1]
            s['holes'] = [h[::-1] if r.integers(2) else h for h in s['holes']][::-1]
    if r.integers(3) == 0:
        how.append('midpoints')
        for s in out['surfs']:
            e = s['ext']
            s['ext'] = [q for i, p in enumerate(e) for q in
                        (p, tuple(0.5 * (np.array(p) + np.array(e[(i + 1) % len(e)]))))]
    if r.integers(2):
        n = int(r.integers(1, 4))
        for _ in range(n):
            i = int(r.integers(len(out['surfs'])))
            lib = r.integers(2)
            q = lib_cut(ctx, r, out, i) if lib else cut(r, out['surfs'][i])
            if q:
                how.append('lib-split' if lib else 'split')
                out['surfs'][i:i + 1] = q
    if out['points'] and r.integers(2):
        how.append('bars')
        i = int(r.integers(len(out['points'])))
        p = out['points'][i]
        f = gen.uni(r, 0.2, 0.8)
        out['points'][i:i + 1] = [{**p, 'd': p['d'] * math.sqrt(f)}, {**p, 'd': p['d'] * math.sqrt(1 - f)}]
    if r.integers(2) or not how:
        how.append('materials')
        for s in (*out['surfs'], *out['points']):
            if r.integers(2):
                out['mats'].append(out['mats'][s['mat']])
                s['mat'] = len(out['mats']) - 1
    return '+'.join(sorted(set(how))), out


SAME = Iso(np.eye(2), np.zeros(2))


@M.family(1200, 12000)
def descriptions(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=bool(r.integers(3)), size=unit_size(r))
    how, other = redescribe(ctx, r, spec)
    refs = refs_of(spec)
    c1, c2 = build.section(spec), build.section(other)
    for _ in range(2):
        mode, st = gen.strain_plane(r, spec)
        w = dict(spec=spec, how=how, other=other, strain=st)
        if any(near_uniform_limit(spec, st, refs) for _ in (0,)):
            ctx.ev('skipped_band')
            continue
        f1 = ctx.call('integrate', c1.section_calculator.integrate_strain_profile, list(st))
        f2 = ctx.call('integrate', c2.section_calculator.integrate_strain_profile, list(st))
        tol = tol_vec(spec, st, refs)
        ctx.close('forces', f2, f1, 0, 20 * tol, key='described:' + mode, **w)
        if mode != 'align':
            K1 = ctx.call('stiffness', c1.section_calculator.integrate_strain_profile, list(st), 'modulus')
            K2 = ctx.call('stiffness', c2.section_calculator.integrate_strain_profile, list(st), 'modulus')
            ctx.close('stiffness', K2, K1, 0, 20 * tol_mat(spec, st, refs), key='described-stiffness', **w)
        # the union is the sum of its parts
        tot = np.zeros(3)
        for s in spec['surfs']:
            tot += ctx.call('integrate', build.section({**spec, 'surfs': [s], 'points': []}).section_calculator.integrate_strain_profile, list(st))
        if spec['points']:
            only = {**spec, 'surfs': [spec['surfs'][0]]}
            tot += ctx.call('integrate', build.section(only).section_calculator.integrate_strain_profile, list(st))
            tot -= ctx.call('integrate', build.section({**only, 'points': []}).section_calculator.integrate_strain_profile, list(st))
        ctx.close('union', f1, tot, 0, 20 * tol, key='union', **w)
        ctx.sig('described', desc(spec), how, mode)
    mats = [build.material(x) for x in spec['mats']]
    if all(float(np.asarray(x.constitutive_law.get_tangent(eps=0)).item()) > 0 for x in mats):
        g1, g2 = ctx.call('gross', lambda: c1.gross_properties), ctx.call('gross', lambda: c2.gross_properties)
        R = radius(spec)
        gross_compare(ctx, g1, g2, SAME, R, 0, dict(spec=spec, how=how, other=other), key='described:',
                      full='split' not in how)


@M.family(320, 2500)
def described_strength(ctx):
    r = ctx.rng
    kind, spec = case(r, bool(r.integers(4)))
    how, other = redescribe(ctx, r, spec)
    c1, c2 = build.section(spec).section_calculator, build.section(other).section_calculator
    lo, hi = float(c1.n_min), float(c1.n_max)
    w = dict(spec=spec, how=how, other=other)
    ctx.close('strength', [c2.n_min, c2.n_max], [lo, hi], 1e-8, 1e-8 * (hi - lo), key='described:limits', **w)
    th = theta_of(r)
    n = gen.pick(r, [0.0, lo * gen.uni(r, 0, 0.6), lo + (hi - lo) * gen.uni(r, 0.05, 0.95)])
    if not lo < n < hi:
        n = 0.5 * (lo + hi)
    strength_pair(ctx, c1, c2, SAME, spec, th, n, {**w, 'theta': th, 'n': n}, 'described:', radius(spec))
    if kind != 'steel' and r.integers(2):
        s1, s2 = build.section(spec), build.section(other)
        g1, e1 = ctx.attempt('cracked', calculate_elastic_cracked_properties, s1, th)
        g2, e2 = ctx.attempt('cracked', calculate_elastic_cracked_properties, s2, th)
        if e1 is None and e2 is None:
            R = radius(spec)
            ctx.close('cracked', [g2.ea, g2.e_iyy / R ** 2, g2.e_izz / R ** 2, g2.e_iyz / R ** 2],
                      [g1.ea, g1.e_iyy / R ** 2, g1.e_izz / R ** 2, g1.e_iyz / R ** 2], 0, 1e-5 * g1.ea, key='described:cracked', **w)
        else:
            ctx.check('cracked', (e1 is None) == (e2 is None), key='described:cracked-raises', msg=f'{e1!r} {e2!r}', **w)
    ctx.sig('dstrength', desc(spec), how, round(th, 2))


@M.family(144, 800)
def fiber_union(ctx):
    """With the fiber integrator each part is meshed on its own."""
    r = ctx.rng
    spec = gen.mixed_section(r, max_parts=3)
    refs = refs_of(spec)
    mesh = gen.pick(r, [0.01, 0.05, 0.2])
    calc = build.section(spec, 'fiber', mesh_size=mesh).section_calculator
    mode, st = gen.strain_plane(r, spec)
    f = ctx.call('integrate', calc.integrate_strain_profile, list(st))
    tot = np.zeros(3)
    for s in spec['surfs']:
        tot += ctx.call('integrate', build.section({**spec, 'surfs': [s], 'points': []}, 'fiber', mesh_size=mesh).section_calculator.integrate_strain_profile, list(st))
    if spec['points']:
        only = {**spec, 'surfs': [spec['surfs'][0]]}
        tot += ctx.call('integrate', build.section(only, 'fiber', mesh_size=mesh).section_calculator.integrate_strain_profile, list(st))
        tot -= ctx.call('integrate', build.section({**only, 'points': []}, 'fiber', mesh_size=mesh).section_calculator.integrate_strain_profile, list(st))
    ctx.close('union', f, tot, 0, 20 * tol_vec(spec, st, refs), key='fiber-union', spec=spec, strain=st, mesh=mesh)
    ctx.sig('fu', desc(spec), mesh)
