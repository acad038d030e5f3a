"""C18: steel profiles against their catalogue dimensions."""
import json
import math
import os
import re

import numpy as np
from shapely import Polygon

import structuralcodes.geometry.profiles as P

from .. import geo, ref
from ..core import Module

CAT = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'profiles.json')))
ALL = [(f, n) for f in sorted(CAT) for n in CAT[f]]
NUMERIC = ('IPE', 'IPN', 'UPE', 'UPN')
PROPS = ['A', 'Iy', 'Iz', 'Iyz', 'Icsi', 'Ieta', 'theta', 'Wely', 'Welz',
         'Wply', 'Wplz', 'iy', 'iz']

M = Module(
    'C18',
    'every profile of every family (719) x several random orders and '
    'repetitions of property access on fresh objects; oracle: own rounded '
    'polygon from the dimensions, own Green integrals and half-plane '
    'bisection; non-trivial = distinct (family, profile, first property asked)',
    required={'mon:dims': 700, 'mon:shape': 700, 'mon:valid': 700, 'mon:props': 700,
              'mon:order': 700, 'mon:names': 100, 'mon:mass': 400, 'mon:catalogue': 14},
)


def rounded(vertices, segs=48):
    """Polygon whose corners (x, y, r) are rounded by arcs of radius r."""
    v = [np.array(p[:2], float) for p in vertices]
    out = []
    for i, p in enumerate(vertices):
        r = p[2]
        c = v[i]
        if r == 0:
            out.append(tuple(c))
            continue
        a, b = v[i - 1] - c, v[(i + 1) % len(v)] - c
        a, b = a / np.hypot(*a), b / np.hypot(*b)
        half = 0.5 * math.acos(max(-1.0, min(1.0, float(a @ b))))
        bis = (a + b) / np.hypot(*(a + b))
        cen = c + bis * r / math.sin(half)
        p0, p1 = c + a * r / math.tan(half), c + b * r / math.tan(half)
        t0 = math.atan2(*(p0 - cen)[::-1])
        dt = math.atan2(*(p1 - cen)[::-1]) - t0
        dt = (dt + math.pi) % (2 * math.pi) - math.pi
        for k in range(segs + 1):
            t = t0 + dt * k / segs
            out.append((cen[0] + r * math.cos(t), cen[1] + r * math.sin(t)))
    return out


def outline(fam, d):
    """Vertices with radii of the nominal outline, any origin, and sum r^2."""
    if fam in ('L', 'LI'):
        h, b, t, r1, r2 = d
        return [(0, 0, 0), (b, 0, 0), (b, t, r2), (t, t, r1), (t, h, r2), (0, h, 0)]
    if fam in ('IPN', 'UPN', 'U'):
        h, b, tw, tf, r1, r2 = d
        if fam == 'IPN':
            sl, u = 0.14, b / 4
            tip, root = tf - sl * u, tf + sl * (b / 4 - tw / 2)
            q = [(b / 2, 0, 0), (b / 2, tip, r2), (tw / 2, root, r1),
                 (tw / 2, h - root, r1), (b / 2, h - tip, r2), (b / 2, h, 0)]
            return q + [(-x, y, r) for x, y, r in q[::-1]]
        sl, u = 0.08, b / 2
        if fam == 'UPN' and h > 300:
            sl, u = 0.05, (b - tw) / 2
        tip, root = tf - sl * u, tf + sl * (b - u - tw)
        return [(0, 0, 0), (b, 0, 0), (b, tip, r2), (tw, root, r1),
                (tw, h - root, r1), (b, h - tip, r2), (b, h, 0), (0, h, 0)]
    h, b, tw, tf, r = d
    if fam == 'UPE':
        return [(0, 0, 0), (b, 0, 0), (b, tf, 0), (tw, tf, r),
                (tw, h - tf, r), (b, h - tf, 0), (b, h, 0), (0, h, 0)]
    q = [(b / 2, 0, 0), (b / 2, tf, 0), (tw / 2, tf, r),
         (tw / 2, h - tf, r), (b / 2, h - tf, 0), (b / 2, h, 0)]
    return q + [(-x, y, r_) for x, y, r_ in q[::-1]]


def plastic(surf, m, axis):
    """Plastic modulus about the axis through the equal-area line."""
    n = np.array([1.0, 0.0]) if axis == 'z' else np.array([0.0, 1.0])
    q = np.asarray(surf['ext']) @ n
    lo, hi = q.min(), q.max()
    L = hi - lo
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        a = geo.moments([surf], n, 0.0, -math.inf, mid)[0][0]
        if a < m['A'] / 2:
            lo = mid
        else:
            hi = mid
    o = 0.5 * (lo + hi)
    k = geo.moments([surf], n, 0.0, o, math.inf)[0]
    below = geo.moments([surf], n, 0.0, -math.inf, o)[0]
    i = 1 if axis == 'z' else 2
    return (k[i] - o * k[0]) - (below[i] - o * below[0]), L


def expected(surf):
    m = ref.poly_moments(surf)
    A, Iy, Iz, Iyz = m['A'], m['zz'], m['yy'], m['yz']
    e = np.asarray(surf['ext'])
    zm, ym = np.abs(e[:, 1]).max(), np.abs(e[:, 0]).max()
    c, rad = 0.5 * (Iy + Iz), math.hypot(0.5 * (Iy - Iz), Iyz)
    out = dict(A=A, Iy=Iy, Iz=Iz, Iyz=Iyz, Icsi=c + rad, Ieta=c - rad,
               theta=0.5 * math.atan2(2 * abs(Iyz), Iy - Iz),
               Wely=Iy / zm, Welz=Iz / ym,
               Wply=plastic(surf, m, 'y')[0], Wplz=plastic(surf, m, 'z')[0],
               iy=math.sqrt(Iy / A), iz=math.sqrt(Iz / A))
    return out


def tolerances(e):
    s = e['Icsi']
    t = {k: 1e-9 * abs(v) for k, v in e.items()}
    t['Iyz'] = 1e-9 * s
    t['theta'] = 1e-6
    t['Wply'], t['Wplz'] = 1e-7 * e['Wply'], 1e-7 * e['Wplz']
    return t


@M.family(quick=719, thorough=2157, timeout=120)
def profile(ctx):
    r = ctx.rng
    fam, name = ALL[ctx.index % len(ALL)]
    cls = getattr(P, fam)
    dims = CAT[fam][name]
    # the catalogue's own record is used, by name, whatever else happened
    if r.integers(2):
        other = cls.profiles()[int(r.integers(len(cls.profiles())))]
        ctx.call('get_polygon', cls.get_polygon, other)
    p = ctx.call('create', cls, name)
    w = dict(family=fam, profile=name)
    labels = (['h', 'b', 't', 'r1', 'r2'] if fam in ('L', 'LI') else
              ['h', 'b', 'tw', 'tf', 'r1', 'r2'] if fam in ('IPN', 'UPN', 'U') else
              ['h', 'b', 'tw', 'tf', 'r'])
    got = [getattr(p, k) for k in labels]
    ctx.check('dims', got == dims, 'dims', 'dimensions differ from the catalogue',
              got=got, catalogue=dims, **w)
    poly = p.polygon
    e0 = np.asarray(poly.exterior.coords)
    # ------------------------------------------------------------- validity
    h, b = dims[0], dims[1]
    bd = poly.bounds
    ccw = ref.signed_area(e0[:-1]) > 0
    ctx.check('valid', poly.is_valid and isinstance(poly, Polygon) and not poly.interiors and ccw,
              'valid', 'polygon not a valid counter-clockwise outline', **w)
    ctx.close('valid', [bd[2] - bd[0], bd[3] - bd[1]], [b, h], rtol=1e-9, key='bounds', **w)
    surf = geo.surf_of(poly)
    m = ref.poly_moments(surf)
    ctx.close('valid', [m['y'] / m['A'], m['z'] / m['A']], [0, 0], rtol=0, atol=1e-6 * h,
              key='centred', **w)
    # ---------------------------------------------------------------- shape
    v = outline(fam, dims)
    mine = Polygon(rounded(v))
    c = mine.centroid
    xy = np.asarray(mine.exterior.coords) - [c.x, c.y]
    diff = Polygon(xy).symmetric_difference(poly).area
    tol = sum(0.011 * q[2] ** 2 for q in v) + 1e-7 * m['A']
    # the centroids of the two chord approximations differ a little
    tol += sum(0.011 * q[2] ** 2 for q in v) * poly.length * 0.5 * (h + b) / m['A']
    ctx.check('shape', diff <= tol, 'shape', 'polygon differs from the nominal outline',
              difference=diff, tolerance=tol, area=m['A'], **w)
    sig = 1e-9 * m['A'] * (h + b)**2
    if fam not in ('L', 'LI'):
        ctx.close('shape', m['yz'], 0.0, rtol=0, atol=sig, key='symmetry', **w)
        mirror = Polygon(e0 * [1, -1]).symmetric_difference(poly).area
        ctx.check('shape', mirror <= 1e-7 * m['A'], 'symmetry-y', 'not symmetric about y', area=mirror, **w)
        if fam not in ('UPN', 'UPE', 'U'):
            mirror = Polygon(e0 * [-1, 1]).symmetric_difference(poly).area
            ctx.check('shape', mirror <= 1e-7 * m['A'], 'symmetry-z', 'not symmetric about z', area=mirror, **w)
    elif fam == 'L' and h == b:
        ctx.close('shape', m['yy'], m['zz'], rtol=1e-6, key='equal-legs', **w)
    g = cls.get_polygon(name)
    ctx.check('shape', g.symmetric_difference(poly).area <= 1e-9 * m['A'], 'get_polygon',
              'class polygon differs from the object', **w)
    # ----------------------------------------------------------- properties
    exp = expected(surf)
    tol = tolerances(exp)
    # L of equal legs: the angle is 45 degrees
    for rep in range(3):
        q = p if rep == 0 else cls(name)
        order = [str(k) for k in r.permutation(PROPS)]
        order += [str(k) for k in r.choice(PROPS, 4)]
        if rep == 2:
            order = order[:int(r.integers(1, 6))]
        for k in order:
            val = ctx.call(f'property {k}', getattr, q, k)
            okay = isinstance(val, (float, int)) and not isinstance(val, complex) \
                and abs(val - exp[k]) <= tol[k]
            ctx.check('props' if rep == 0 else 'order', okay, f'value:{k}',
                      f'{k} is not that of the polygon', got=repr(val), expected=exp[k],
                      order=order, **w)
        if ctx.violations:
            break
        after = np.asarray(q.polygon.exterior.coords)
        ctx.check('order', after.shape == e0.shape and np.allclose(after, e0, rtol=0, atol=1e-9 * h),
                  'polygon-moved', 'reading properties changed the polygon', order=order, **w)
        ctx.sig(fam, name, order[0])
    # ---------------------------------------------------------------- names
    num = re.findall(r'\d+(?:\.\d+)?', name)
    f = [float(x) for x in num]
    if fam in ('IPE', 'IPN', 'UPN', 'UPE'):
        ctx.check('names', h == f[0], 'name-h', 'height is not that of the name', **w)
        for variant in (int(f[0]), float(f[0])):
            o = ctx.call('numeric name', cls, variant)
            ctx.check('names', [getattr(o, k) for k in labels] == dims
                      and o.polygon.equals(poly), 'numeric-name', 'numeric name differs', name=variant, **w)
            gp = ctx.call('numeric name', cls.get_polygon, variant)
            ctx.check('names', gp.symmetric_difference(poly).area <= 1e-9 * m['A'],
                      'numeric-name', 'numeric name differs', name=variant, **w)
    elif name.startswith('HEB'):
        ctx.check('names', h == f[0], 'name-h', 'height is not that of the name', **w)
    elif fam in ('L', 'LI'):
        ctx.check('names', [h, b, dims[2]] == f or (len(f) == 3 and f[0] > 190 and
                  abs(h - f[0]) < 1), 'name-dims', 'dimensions are not those of the name', **w)
    elif fam == 'U':
        ctx.check('names', h == f[0], 'name-h', 'height is not that of the name', **w)
    if fam in ('W', 'UB', 'UC', 'UBP', 'HP', 'HD'):
        mass = exp['A'] * 7850e-6
        ctx.check('mass', abs(mass - f[-1]) <= 0.045 * f[-1] + 0.5, 'mass',
                  'mass differs from that of the name', mass=mass, **w)


@M.family(quick=56, thorough=140)
def names(ctx):
    r = ctx.rng
    fam = sorted(CAT)[ctx.index % len(CAT)]
    cls = getattr(P, fam)
    ctx.check('catalogue', sorted(cls.profiles()) == sorted(CAT[fam]), 'profiles',
              'list of profiles differs from the catalogue', family=fam)
    known = list(CAT[fam])
    others = [n for f, n in ALL if n not in CAT[fam]]
    bad = [others[int(r.integers(len(others)))], '', fam, known[0] + '0', ' ' + known[0],
           known[0].lower(), known[-1] + ' ', 'IPE', 'HEX100', None]
    if fam in NUMERIC:
        bad += [1, 33, 1e4, -80, 0]
    else:
        bad += [200, 100.0]
    k = bad[int(r.integers(len(bad)))]
    for k in bad:
        if k in CAT[fam]:
            continue
        ctx.rejects('names', f'{fam} {k!r}', cls, k)
        ctx.rejects('names', f'{fam}.get_polygon {k!r}', cls.get_polygon, k)
        ctx.sig(fam, str(k))
