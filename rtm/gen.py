"""Random but valid inputs: polygons, laws, sections, strain planes.

All generators take a numpy Generator and return plain data (specs)."""

from __future__ import annotations

import copy
import math
import warnings
import zlib

import numpy as np
from shapely.geometry import Polygon

from structuralcodes.sections import GenericSection

from . import ref


def uni(r, a, b):
    return float(r.uniform(a, b))


def logu(r, a, b):
    return float(math.exp(r.uniform(math.log(a), math.log(b))))


def pick(r, seq):
    return seq[int(r.integers(len(seq)))]


# --------------------------------------------------------------- polygons
def rect(w, h, cy=0.0, cz=0.0):
    return [
        (cy - w / 2, cz - h / 2),
        (cy + w / 2, cz - h / 2),
        (cy + w / 2, cz + h / 2),
        (cy - w / 2, cz + h / 2),
    ]


def ring_T(b, h, tw, tf):
    return [
        (-tw / 2, 0), (tw / 2, 0), (tw / 2, h - tf), (b / 2, h - tf),
        (b / 2, h), (-b / 2, h), (-b / 2, h - tf), (-tw / 2, h - tf),
    ]


def ring_I(b, h, tw, tf, b2=None):
    b2 = b2 or b
    return [
        (-b2 / 2, 0), (b2 / 2, 0), (b2 / 2, tf), (tw / 2, tf), (tw / 2, h - tf),
        (b / 2, h - tf), (b / 2, h), (-b / 2, h), (-b / 2, h - tf),
        (-tw / 2, h - tf), (-tw / 2, tf), (-b2 / 2, tf),
    ]


def ring_L(b, h, t):
    return [(0, 0), (b, 0), (b, t), (t, t), (t, h), (0, h)]


def ring_C(b, h, t):
    """Channel: non convex, centroid outside the ring."""
    return [(0, 0), (b, 0), (b, t), (t, t), (t, h - t), (b, h - t), (b, h), (0, h)]


def ring_star(r, n, rad, spread=0.5):
    a = np.sort(r.uniform(0, 2 * np.pi, n))
    # avoid degenerate angular gaps
    a = np.linspace(0, 2 * np.pi, n, endpoint=False) + r.uniform(-0.4, 0.4, n) * (
        np.pi / n
    )
    q = rad * r.uniform(1 - spread, 1, n)
    return [(float(x), float(y)) for x, y in zip(q * np.cos(a), q * np.sin(a))]


def ring_circle(n, rad):
    a = np.linspace(0, 2 * np.pi, n, endpoint=False)
    return [(float(rad * np.cos(t)), float(rad * np.sin(t))) for t in a]


def xform(rings, ang=0.0, dy=0.0, dz=0.0, mirror=False):
    out = []
    c, s = math.cos(ang), math.sin(ang)
    for ring in rings:
        q = []
        for y, z in ring:
            if mirror:
                y = -y
            q.append((c * y - s * z + dy, s * y + c * z + dz))
        out.append(q)
    return out


SHAPES = [
    'rect', 'T', 'I', 'L', 'C', 'star', 'circle', 'box', 'hollowcirc',
    'boxC', 'multihole', 'tri', 'thin',
]


def shape(r, size=None, kind=None):
    """(kind, [ext, hole...]) around the origin, characteristic size."""
    size = size or logu(r, 100, 2000)
    kind = kind or pick(r, SHAPES)
    b, h = size * uni(r, 0.3, 1), size * uni(r, 0.4, 1)
    if kind == 'rect':
        rings = [rect(b, h)]
    elif kind == 'T':
        rings = [ring_T(b, h, b * uni(r, 0.15, 0.6), h * uni(r, 0.1, 0.4))]
    elif kind == 'I':
        rings = [
            ring_I(b, h, b * uni(r, 0.1, 0.4), h * uni(r, 0.08, 0.3),
                   b * uni(r, 0.5, 1.3))
        ]
    elif kind == 'L':
        rings = [ring_L(b, h, min(b, h) * uni(r, 0.15, 0.5))]
    elif kind == 'C':
        rings = [ring_C(b, h, min(b, h) * uni(r, 0.1, 0.3))]
    elif kind == 'star':
        rings = [ring_star(r, int(r.integers(5, 14)), size / 2)]
    elif kind == 'circle':
        rings = [ring_circle(int(r.integers(8, 28)), size / 2)]
    elif kind == 'tri':
        rings = [[(0.0, 0.0), (b, uni(r, 0, 0.3) * h), (uni(r, 0.1, 0.9) * b, h)]]
    elif kind == 'thin':
        rings = [rect(b, h * 0.04)]
    elif kind == 'box':
        t1, t2 = b * uni(r, 0.08, 0.3), h * uni(r, 0.08, 0.3)
        rings = [
            rect(b, h),
            rect(b - 2 * t1, h - 2 * t2, uni(r, -0.4, 0.4) * t1, uni(r, -0.4, 0.4) * t2),
        ]
    elif kind == 'hollowcirc':
        n = int(r.integers(10, 24))
        rings = [ring_circle(n, size / 2), ring_circle(n, size / 2 * uni(r, 0.4, 0.85))]
    elif kind == 'boxC':
        # rectangular block with a C shaped duct (centroid outside the hole)
        hb, hh = 0.6 * b, 0.6 * h
        hole = xform([ring_C(hb, hh, 0.2 * min(hb, hh))], 0, -hb / 2, -hh / 2)[0]
        rings = [rect(b, h), hole]
    else:  # multihole
        rings = [rect(b, h)]
        nh = int(r.integers(2, 4))
        for k in range(nh):
            rad = 0.3 * min(b / nh, h) * (uni(r, 0.5, 1) if r.integers(4) else logu(r, 0.01, 1))
            cy = -b / 2 + b * (k + 0.5) / nh
            rings += xform([ring_circle(int(r.integers(6, 12)), rad)], 0, cy, uni(r, -0.1, 0.1) * h)
    return kind, rings


def placed_shape(r, size=None, kind=None):
    kind, rings = shape(r, size, kind)
    ext = max(max(abs(c) for c in p) for p in rings[0])
    mode = r.integers(4)
    ang = (
        0.0 if mode == 0
        else pick(r, [math.pi / 2, math.pi, -math.pi / 2, math.pi / 4]) if mode == 1
        else uni(r, -math.pi, math.pi)
    )
    dy, dz = (0.0, 0.0) if r.integers(3) == 0 else (uni(r, -2, 2) * ext, uni(r, -2, 2) * ext)
    rings = xform(rings, ang, dy, dz, bool(r.integers(2)))
    if r.integers(3) == 0:  # other start vertex
        k = int(r.integers(len(rings[0])))
        rings[0] = rings[0][k:] + rings[0][:k]
    if r.integers(3) == 0:
        rings[0] = rings[0][::-1]
    return kind, rings


def bounds(rings):
    a = np.array(rings[0])
    return a.min(axis=0), a.max(axis=0)


# -------------------------------------------------------------------- laws
def law_conc(r, kind=None, poly_only=False):
    kinds = ['pr2', 'bilin'] if poly_only else ['pr2', 'bilin', 'prn', 'sargin', 'popovics']
    kind = kind or pick(r, kinds)
    fc = uni(r, 10, 90)
    if kind in ('pr2', 'prn'):
        e0 = uni(r, 0.0015, 0.0028)
        return dict(
            kind='pr', fc=fc, eps_0=-e0, eps_u=-e0 * uni(r, 1.05, 2.2),
            n=2.0 if kind == 'pr2' else uni(r, 1.2, 2.6),
        )
    if kind == 'bilin':
        e0 = uni(r, 0.0008, 0.0025)
        return dict(kind='bilin', fc=fc, eps_c=-e0, eps_cu=-e0 * uni(r, 1.1, 3))
    if kind == 'sargin':
        e0 = uni(r, 0.0018, 0.0027)
        k = uni(r, 1.3, 3.2)
        rat = uni(r, 1.05, 1.9)
        rat = min(rat, 0.93 * k)  # keep the descending branch below zero stress
        return dict(kind='sargin', fc=fc, eps_c1=-e0, eps_cu1=-e0 * max(rat, 1.02), k=k)
    e0 = uni(r, 0.0018, 0.0026)
    Ec = fc / e0 * uni(r, 1.3, 3)
    return dict(
        kind='popovics', fc=fc, eps_c=-e0, eps_cu=-e0 * uni(r, 1.1, 2.2), Ec=Ec
    )


def law_steel(r, softening=False):
    E = uni(r, 1.6e5, 2.2e5)
    fy = uni(r, 200, 1500)
    Eh = pick(r, [0.0, 0.0, uni(r, 100, 5000)])
    su = pick(r, [None, fy / E * uni(r, 3, 30)])
    if softening and su is not None and r.integers(3) == 0:
        Eh = -uni(r, 0.05, 0.9) * fy / (su - fy / E)
    return dict(kind='ep', E=E, fy=fy, Eh=Eh, eps_su=su)


def law_user(r):
    n = int(r.integers(2, 6))
    x = np.cumsum(r.uniform(0.0005, 0.004, n))
    y = np.cumsum(r.uniform(-30, 120, n)) + 40
    flag = int(r.integers(4))
    if r.integers(2):
        xs, ys = [0.0, *x], [0.0, *y]
        if r.integers(3) == 0 and n > 2:  # jump: two close points
            pass
        return dict(
            kind='user', x=[float(v) for v in xs], y=[float(v) for v in ys], flag=flag
        )
    m = int(r.integers(2, 5))
    xn = -np.cumsum(r.uniform(0.0005, 0.004, m))[::-1]
    yn = -(np.cumsum(r.uniform(-20, 60, m)) + 20)[::-1]
    if r.integers(4) == 0:  # no tension, as a user types the law of a concrete
        x = y = ()
    return dict(
        kind='user',
        x=[float(v) for v in [*xn, 0.0, *x]],
        y=[float(v) for v in [*yn, 0.0, *y]],
        flag=flag,
    )


def law_any(r, depth=0, poly_only=False):
    w = r.random()
    if depth < 2 and w < 0.1:
        inner = law_any(r, depth + 1, poly_only)
        rl = ref.ref_law(inner)
        span = min(abs(rl.lims[0]), abs(rl.lims[1]), 0.01)
        return dict(
            kind='init', law=inner, e0=uni(r, -0.8, 0.8) * span,
            compat=bool(r.random() < 0.8),
        )
    if depth < 2 and w < 0.2:
        k = int(r.integers(2, 4))
        return dict(
            kind='par',
            laws=[law_any(r, depth + 1, poly_only) for _ in range(k)],
            w=[uni(r, 0.1, 2) for _ in range(k)] if r.integers(2) else None,
        )
    if w < 0.35:
        E = logu(r, 1e3, 2.2e5)
        u = pick(r, [None, None, uni(r, 0.002, 0.05), (-uni(r, 0.002, 0.05), uni(r, 0.002, 0.05))])
        return dict(kind='elastic', E=E, eps_u=u)
    if w < 0.55:
        return law_steel(r, softening=True)
    if w < 0.7:
        return law_user(r)
    return law_conc(r, poly_only=poly_only)


def vary_law(r, sp, f=None):
    """The same law with another strength: strain limits and name unchanged."""
    o = dict(sp)
    f = f or pick(r, [1.02, 1.5, 2.0, 0.5, 0.9])
    if sp['kind'] == 'init':
        o['law'] = vary_law(r, sp['law'], f)
        return o
    if sp['kind'] == 'par':
        o['laws'] = [vary_law(r, q, f) for q in sp['laws']]
        return o
    for k in ('fc', 'E', 'fy', 'Eh', 'Ec'):
        if o.get(k) is not None:
            o[k] = o[k] * f
    if sp['kind'] == 'user':
        o['y'] = [v * f for v in o['y']]
    return o


# ---------------------------------------------------------------- sections
def sibling(r, spec):
    """A section that looks like spec and differs in one thing only."""
    o = copy.deepcopy(spec)
    hows = ['law', 'law', 'part', 'part']
    if any(s.get('holes') for s in spec['surfs']):
        hows += ['hole'] * 6
    if spec.get('points'):
        hows += ['bar', 'diameter']
    if len(spec['mats']) > 1 and len(spec['surfs']) + len(spec.get('points', [])) > 1:
        hows += ['swap']
    how = pick(r, hows)
    if how == 'law':
        m = pick(r, o['mats'])
        m['law'] = vary_law(r, m['law'])
    elif how == 'hole':
        s = pick(r, [q for q in o['surfs'] if q.get('holes')])
        i = int(r.integers(len(s['holes'])))
        c = np.mean(np.array(s['holes'][i]), axis=0)
        f = uni(r, 0.4, 0.9)
        s['holes'][i] = [(float(c[0] + f * (y - c[0])), float(c[1] + f * (z - c[1]))) for y, z in s['holes'][i]]
        # a hole whose centre lies outside it may leave the outline
        P = Polygon(s['ext'], s['holes'])
        if not P.is_valid or P.area >= Polygon(s['ext']).area:
            return 'law', sibling_law(r, spec)
    elif how == 'part':
        # one part moves away from the others by a bit
        s = pick(r, o['surfs'])
        xy = all_xy(spec)
        c, q = (xy.min(axis=0) + xy.max(axis=0)) / 2, np.array(s['ext']).mean(axis=0)
        d = q - c
        d = d / (float(np.hypot(*d)) or 1.0) * uni(r, 0, 0.05) * spec.get('size', 500.0)
        if len(o['surfs']) > 1:
            d = d * 0 + (0.0, 0.0)
            a = np.array(s['ext'])
            f = uni(r, 0.7, 0.98)
            s['ext'] = [(float(q[0] + f * (y - q[0])), float(q[1] + f * (z - q[1]))) for y, z in a]
            s['holes'] = [[(float(q[0] + f * (y - q[0])), float(q[1] + f * (z - q[1]))) for y, z in h] for h in s.get('holes', [])]
        else:
            for ring in [s['ext'], *s.get('holes', [])]:
                ring[:] = [(y + float(d[0]), z + float(d[1])) for y, z in ring]
    elif how == 'bar':
        p = pick(r, o['points'])
        xy = all_xy(spec)
        c = (xy.min(axis=0) + xy.max(axis=0)) / 2
        f = uni(r, 0.85, 0.99)
        p['y'], p['z'] = float(c[0] + f * (p['y'] - c[0])), float(c[1] + f * (p['z'] - c[1]))
    elif how == 'diameter':
        p = pick(r, o['points'])
        p['d'] = p['d'] * uni(r, 0.8, 1.2)
    else:
        i, j = (int(v) for v in r.permutation(len(o['mats']))[:2])
        o['mats'][i], o['mats'][j] = o['mats'][j], o['mats'][i]
    return how, o


def sibling_law(r, spec):
    o = copy.deepcopy(spec)
    m = pick(r, o['mats'])
    m['law'] = vary_law(r, m['law'])
    return o


def warm_up(spec, share=0.12):
    """Now and then a sibling of the section to come is built and used first,
    so that nothing of another section may leak into the one under test.

    The choice depends on the section alone: the stream of random numbers of
    the caller is not touched."""
    h = zlib.crc32(repr((spec['surfs'], spec['points'], spec['mats'])).encode())
    r = np.random.default_rng(h)
    if r.random() > share:
        return None
    from . import build

    how, sib = sibling(r, spec)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            g = build.geometry(sib)
            mode, e = strain_plane(r, sib)
            for integ, kw in (('marin', {}), ('fiber', dict(mesh_size=0.01)), ('fiber', dict(mesh_size=pick(r, [0.02, 0.05, 0.2, 1.0])))):
                s = GenericSection(g, integrator=integ, **kw)
                c = s.section_calculator
                c.integrate_strain_profile(list(e))
                c.integrate_strain_profile(list(e), 'modulus')
                s.gross_properties
                c.calculate_limit_axial_load()
                if integ == 'marin' and r.integers(4) == 0:
                    c.calculate_bending_strength(float(pick(r, [0.0, 0.0, np.pi, uni(r, -3, 3)])), 0.0)
        except Exception:  # noqa: BLE001 - its errors are the matter of C08, C09
            pass
    return how


def mixed_section(r, poly_only=False, npoints=None, size=None, max_parts=3, far=0.0):
    """Arbitrary composite of (possibly disjoint) parts, any laws.

    far: share of sections in the coordinate system of a whole building.
    """
    size = size or logu(r, 100, 2000)
    nparts = int(r.integers(1, max_parts + 1))
    mats = [dict(law=law_any(r, 0, poly_only), density=uni(r, 500, 8000)) for _ in range(int(r.integers(1, 4)))]
    surfs = []
    off = 0.0
    for _ in range(nparts):
        kind, rings = shape(r, size * uni(r, 0.3, 1))
        rings = xform(rings, pick(r, [0.0, math.pi / 2, uni(r, 0, 6.28)]))
        lo, hi = bounds(rings)
        rings = xform(rings, 0, off - lo[0], uni(r, -0.3, 0.3) * size)
        off += (hi[0] - lo[0]) * uni(r, 1.01, 1.2)
        surfs.append(
            dict(ext=rings[0], holes=rings[1:], mat=int(r.integers(len(mats))),
                 concrete=bool(r.integers(2)), shape=kind)
        )
    pts = []
    npts = int(r.integers(0, 7)) if npoints is None else npoints
    a = np.vstack([np.array(s['ext']) for s in surfs])
    lo, hi = a.min(axis=0), a.max(axis=0)
    for _ in range(npts):
        pts.append(
            dict(y=uni(r, lo[0], hi[0]), z=uni(r, lo[1], hi[1]),
                 d=uni(r, 0.005, 0.04) * size, mat=int(r.integers(len(mats))))
        )
    # global placement
    ang = pick(r, [0.0, 0.0, uni(r, -3.14, 3.14)])
    dy, dz = uni(r, -1.5, 1.5) * size, uni(r, -1.5, 1.5) * size
    if r.integers(3) == 0:
        dy, dz = -(lo + hi) / 2
    if far and r.random() < far:
        k = logu(r, 3, 3000)
        dy, dz = dy * k, dz * k
    for s in surfs:
        rr = xform([s['ext'], *s['holes']], ang, dy, dz)
        s['ext'], s['holes'] = rr[0], rr[1:]
    for p in pts:
        p['y'], p['z'] = xform([[(p['y'], p['z'])]], ang, dy, dz)[0][0]
    out = dict(surfs=surfs, points=pts, mats=mats, size=size)
    warm_up(out)
    return out


def spec_refs(spec):
    """Reference view of a spec: surfaces/points with RefLaw."""
    laws = [ref.ref_law(m['law']) for m in spec['mats']]
    surfs = [(s, laws[s['mat']]) for s in spec['surfs']]
    pts = [
        (p['y'], p['z'], math.pi * p['d'] ** 2 / 4, laws[p['mat']])
        for p in spec.get('points', [])
    ]
    return surfs, pts, laws


def all_xy(spec):
    a = [np.array(s['ext'], dtype=float) for s in spec['surfs']]
    if spec.get('points'):
        a.append(np.array([(p['y'], p['z']) for p in spec['points']], dtype=float))
    return np.vstack(a)


def strain_plane(r, spec, scale=None):
    """A plane tuned to the section: random, uniform, aligned, tiny curvature."""
    xy = all_xy(spec)
    c = (xy.min(axis=0) + xy.max(axis=0)) / 2
    h = float(np.max(np.ptp(xy, axis=0)))
    laws = [ref.ref_law(m['law']) for m in spec['mats']]
    kinks = [q for w in laws for q in w.kinks if abs(q) < 0.5]
    scale = scale or (
        abs(pick(r, kinks)) if kinks and r.random() < 0.6 else logu(r, 1e-5, 2e-2)
    )
    scale = max(scale, 1e-6)
    mode = pick(r, ['gen', 'gen', 'gen', 'uniform', 'axis', 'tiny', 'align'])
    if mode == 'uniform':
        return mode, (uni(r, -2, 2) * scale, 0.0, 0.0)
    th = uni(r, -math.pi, math.pi)
    if mode == 'axis':
        th = pick(r, [0.0, math.pi / 2, math.pi, -math.pi / 2])
    k = uni(r, 0.2, 3) * scale / h
    if mode == 'tiny':
        k = scale / h * logu(r, 1e-7, 1e-3)
    # eps = em + k * u.(x-c), ky=k*cos, kz = -k*sin for u=(sin, cos)
    ky, kz = k * math.cos(th), -k * math.sin(th)
    if mode == 'axis':
        if th in (0.0, math.pi):
            kz = 0.0
        else:
            ky = 0.0
    em = uni(r, -1.5, 1.5) * scale
    if mode == 'align' and kinks:
        # a kink strain exactly (to round-off) at a vertex / along an edge
        s = pick(r, spec['surfs'])
        i = int(r.integers(len(s['ext'])))
        p, q = np.array(s['ext'][i]), np.array(s['ext'][(i + 1) % len(s['ext'])])
        d = q - p
        nrm = float(np.hypot(*d))
        u = np.array([-d[1], d[0]]) / nrm * pick(r, [-1.0, 1.0])
        ky, kz = k * float(u[1]), -k * float(u[0])
        if abs(d[1]) == 0:
            kz = 0.0
        if abs(d[0]) == 0:
            ky = 0.0
        e0 = pick(r, kinks) - ky * p[1] + kz * p[0]
        return mode, (float(e0), float(ky), float(kz))
    e0 = em - ky * c[1] + kz * c[0]
    return mode, (float(e0), float(ky), float(kz))


# -------------------------------------------------- reinforced concrete
def rc_section(r, poly_only=True, composite=False, kind=None, ductile=None):
    """Concrete section with reinforcement inside, plus optional steel part.

    Returned laws have finite ultimate strains for reinforcement.
    """
    kind = kind or pick(
        r, ['rect', 'rect', 'T', 'I', 'L', 'circle', 'box', 'star', 'hollowcirc', 'C']
    )
    size = logu(r, 250, 1800)
    _, rings = shape(r, size, kind)
    if kind == 'C':
        b, h = size * 0.9, size
        rings = [ring_C(b, h, 0.2 * b)]
    conc = law_conc(r, poly_only=poly_only)
    E = 200000.0
    fy = uni(r, 350, 650)
    su = fy / E * uni(r, 6, 25)
    steel = dict(kind='ep', E=E, fy=fy, Eh=pick(r, [0.0, uni(r, 100, 1500)]), eps_su=su)
    # usual densities or any other, without drawing a random number
    rho = (2500.0, 7850.0) if int(fy * 1e6) % 3 == 0 else (800 + fy * 1e3 % 2500, 1500 + fy * 1e4 % 8000)
    mats = [dict(law=conc, density=rho[0]), dict(law=steel, density=rho[1])]
    two_steels = r.integers(4) == 0
    if two_steels:
        fp = uni(r, 900, 1600)
        mats.append(
            dict(law=dict(kind='ep', E=195000.0, fy=fp, Eh=uni(r, 0, 800),
                          eps_su=fp / 195000.0 * uni(r, 3, 8)), density=rho[1] * 1.1)
        )
    poly = Polygon(rings[0], rings[1:] or None)
    lo, hi = bounds(rings)
    area = poly.area
    rho = logu(r, 0.003, 0.04)
    n = int(r.integers(3, 13))
    d = math.sqrt(4 * rho * area / n / math.pi)
    d = min(max(d, 8.0), 40.0)
    inner = poly.buffer(-max(d, 0.03 * size))
    if inner.is_empty:
        inner = poly.buffer(-0.5 * d)
    if inner.is_empty:
        inner = poly
    geom = max(inner.geoms, key=lambda g: g.area) if hasattr(inner, 'geoms') else inner
    L = geom.exterior.length
    off = r.random()
    pts = []
    for i in range(n):
        q = geom.exterior.interpolate(((i + off) / n % 1.0) * L)
        pts.append(dict(y=float(q.x), z=float(q.y), d=d,
                        mat=2 if two_steels and i % 3 == 0 else 1))
    surfs = [dict(ext=rings[0], holes=rings[1:], mat=0, concrete=True, shape=kind)]
    if composite:
        mats.append(dict(law=dict(kind='ep', E=210000.0, fy=uni(r, 235, 460), Eh=0.0,
                                  eps_su=0.08), density=7850.0))
        w = (hi[0] - lo[0]) * uni(r, 0.3, 0.9)
        t = 0.04 * size
        surfs.append(dict(ext=rect(w, t, (hi[0] + lo[0]) / 2, lo[1] - t / 2), holes=[],
                          mat=len(mats) - 1, concrete=False, shape='plate'))
    # placement
    ang = pick(r, [0.0, 0.0, 0.0, math.pi / 2, uni(r, -3, 3)])
    cen = (lo + hi) / 2
    dy, dz = (-cen[0], -cen[1]) if r.integers(2) else (uni(r, -1, 1) * size, uni(r, -1, 1) * size)
    for s in surfs:
        rr = xform([s['ext'], *s['holes']], 0, dy, dz)
        rr = xform(rr, ang)
        s['ext'], s['holes'] = rr[0], rr[1:]
    for p in pts:
        p['y'], p['z'] = xform(xform([[(p['y'], p['z'])]], 0, dy, dz), ang)[0][0]
    out = dict(surfs=surfs, points=pts, mats=mats, size=size)
    warm_up(out)
    return out
