"""C01: polygon area moments (marin_integration)."""
from fractions import Fraction
from math import comb, factorial

import numpy as np
from shapely.geometry import LineString, Polygon
from shapely.ops import split

from structuralcodes.sections import marin_integration

from .. import gen
from ..core import Module

M = Module(
    'C01',
    'random simple rings (convex, non-convex, with holes, integer, rational '
    'and float coordinates, any start vertex/orientation) x orders (m, n) up '
    'to 9; non-trivial = distinct (ring shape, order) whose exact moment is '
    'non-zero',
    required={'mon:exact': 300, 'mon:cut': 60, 'mon:hole': 40, 'mon:quad': 40},
    assumptions=['exact rational arithmetic (fractions) as reference'],
)


def exact_moment(ring, m, n):
    """Exact integral with fractions, by origin-fan triangles."""
    tot = Fraction(0)
    k = len(ring)
    for i in range(k):
        y1, z1 = ring[i]
        y2, z2 = ring[(i + 1) % k]
        det = y1 * z2 - y2 * z1
        if det == 0:
            continue
        s = Fraction(0)
        for a in range(m + 1):
            for b in range(n + 1):
                s += (
                    comb(m, a) * comb(n, b)
                    * y1**a * y2 ** (m - a) * z1**b * z2 ** (n - b)
                    * Fraction(
                        factorial(a + b) * factorial(m + n - a - b),
                        factorial(m + n + 2),
                    )
                )
        tot += det * s
    return tot


def scale(ring, m, n):
    a = np.abs(np.array([[float(v) for v in p] for p in ring]))
    return float(a[:, 0].max() ** (m + 1) * a[:, 1].max() ** (n + 1)) * len(ring)


def closed(ring, as_):
    r = list(ring) + [ring[0]]
    y, z = [p[0] for p in r], [p[1] for p in r]
    if as_ == 'list':
        return y, z
    if as_ == 'tuple':
        return tuple(y), tuple(z)
    return np.array(y), np.array(z)


def rand_ring(ctx):
    r = ctx.rng
    kind, rings = gen.placed_shape(r, size=gen.logu(r, 0.5, 3000))
    if r.integers(2):
        return kind, rings[0]
    # any unit of length: an exact power of two
    f = 2.0 ** int(r.integers(-30, 31))
    return kind + ' scaled', [(a * f, b * f) for a, b in rings[0]]


@M.family(5000, 40000)
def exact(ctx):
    """Value against exact rational arithmetic, all representations."""
    r = ctx.rng
    kind, ring = rand_ring(ctx)
    mode = gen.pick(r, ['float', 'int', 'float'])
    if mode == 'int' and kind.endswith('scaled'):
        mode = 'float'
    if mode == 'int':
        ring = [(int(round(a)), int(round(b))) for a, b in ring]
        if abs(Polygon(ring).area) < 1:
            ring = [(0, 0), (int(r.integers(5, 3000)), 3), (7, int(r.integers(8, 3000)))]
    fr = [(Fraction(a), Fraction(b)) for a, b in ring]
    for _ in range(4):
        m, n = int(r.integers(0, 6)), int(r.integers(0, 6))
        if r.integers(8) == 0:
            m, n = int(r.integers(0, 10)), int(r.integers(0, 10))
        ex = exact_moment(fr, m, n)
        sc = scale(ring, m, n)
        for as_ in ('list', 'array', 'tuple'):
            y, z = closed(ring, as_)
            got = ctx.call('marin_integration', marin_integration, y, z, m, n)
            ctx.close('exact', got, float(ex), 1e-12, 1e-13 * sc,
                      key=f'exact:{mode}:{as_}', ring=ring, m=m, n=n)
        # reversed ring -> opposite sign
        y, z = closed(ring[::-1], 'array')
        got = ctx.call('marin_integration', marin_integration, y, z, m, n)
        ctx.close('orientation', got, -float(ex), 1e-12, 1e-13 * sc, ring=ring, m=m, n=n)
        k = int(r.integers(len(ring)))
        y, z = closed(ring[k:] + ring[:k], 'list')
        got = ctx.call('marin_integration', marin_integration, y, z, m, n)
        ctx.close('start_vertex', got, float(ex), 1e-12, 1e-13 * sc, ring=ring, m=m, n=n, k=k)
        if ex != 0:
            ctx.sig(kind, m, n, mode, len(ring))
    A = float(exact_moment(fr, 0, 0))
    y, z = closed(ring, 'list')
    a = marin_integration(y, z, 0, 0)
    ctx.check('sign', (a > 0) == (A > 0) or abs(A) < 1e-12 * scale(ring, 0, 0),
              msg=f'area {a} exact {A}', ring=ring)
    ctx.note(kind=kind, ring=ring[:6], m=m, n=n, exact=float(ex))


@M.family(2000, 20000)
def redundant_vertices(ctx):
    r = ctx.rng
    kind, ring = rand_ring(ctx)
    out = []
    for i, p in enumerate(ring):
        q = ring[(i + 1) % len(ring)]
        out.append(p)
        if r.integers(2):
            for t in sorted(r.uniform(0.05, 0.95, int(r.integers(1, 3)))):
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if r.integers(4) == 0:
            out.append(q)  # repeated vertex
    for _ in range(4):
        m, n = int(r.integers(0, 5)), int(r.integers(0, 5))
        a = ctx.call('marin_integration', marin_integration, *closed(ring, 'array'), m, n)
        b = ctx.call('marin_integration', marin_integration, *closed(out, 'array'), m, n)
        ctx.close('redundant', b, a, 1e-11, 1e-12 * scale(ring, m, n), ring=ring, m=m, n=n)
        ctx.sig(kind, m, n, len(out))


@M.family(2500, 20000)
def cut(ctx):
    """Additivity: cut along a line, moments of the pieces add up."""
    r = ctx.rng
    kind, ring = rand_ring(ctx)
    p = Polygon(ring)
    lo, hi = gen.bounds([ring])
    d = float(np.hypot(*(hi - lo)))
    c = np.array([gen.uni(r, lo[0], hi[0]), gen.uni(r, lo[1], hi[1])])
    t = gen.uni(r, 0, np.pi)
    v = np.array([np.cos(t), np.sin(t)]) * 2 * d
    pieces = list(split(p, LineString([c - v, c + v])).geoms)
    for _ in range(4):
        m, n = int(r.integers(0, 5)), int(r.integers(0, 5))
        a = ctx.call('marin_integration', marin_integration, *closed(gen_ccw(ring), 'array'), m, n)
        s = 0.0
        for q in pieces:
            co = gen_ccw(list(q.exterior.coords)[:-1])
            s += marin_integration(*closed(co, 'array'), m, n)
        ctx.close('cut', s, a, 1e-9, 1e-11 * scale(ring, m, n), ring=ring, m=m, n=n)
        if len(pieces) > 1:
            ctx.sig(kind, m, n, len(pieces))


def gen_ccw(ring):
    a = np.asarray(ring, dtype=float)
    from ..ref import signed_area

    return list(ring) if signed_area(a) > 0 else list(ring)[::-1]


@M.family(2000, 20000)
def hole(ctx):
    """Holes traversed clockwise subtract; compared with quadrature."""
    r = ctx.rng
    kind, rings = gen.placed_shape(
        r, gen.logu(r, 1, 2000), gen.pick(r, ['box', 'hollowcirc', 'boxC', 'multihole'])
    )
    m, n = int(r.integers(0, 4)), int(r.integers(0, 4))
    tot = 0.0
    ex = Fraction(0)
    for i, ring in enumerate(rings):
        q = gen_ccw(ring)
        if i:
            q = q[::-1]
        tot += ctx.call('marin_integration', marin_integration, *closed(q, 'array'), m, n)
        ex += exact_moment([(Fraction(a), Fraction(b)) for a, b in q], m, n)
    ctx.close('hole', tot, float(ex), 1e-11, 1e-12 * scale(rings[0], m, n), rings=rings, m=m, n=n)
    ctx.sig(kind, m, n, len(rings))


@M.family(2000, 20000)
def quadrature(ctx):
    """A second, numerical oracle: 1-D Gauss quadrature of the chord moments."""
    r = ctx.rng
    kind, ring = rand_ring(ctx)
    q = np.array(gen_ccw(ring), dtype=float)
    m, n = int(r.integers(0, 5)), int(r.integers(0, 5))
    x, w = np.polynomial.legendre.leggauss(12)
    tot = 0.0
    for a, b in zip(q, np.roll(q, -1, axis=0)):
        # int y^m z^n dA = oint y^(m+1)/(m+1) z^n dz
        t = 0.5 * (1 + x)
        y = a[0] + t * (b[0] - a[0])
        z = a[1] + t * (b[1] - a[1])
        tot += 0.5 * (b[1] - a[1]) * float(np.sum(w * y ** (m + 1) / (m + 1) * z**n))
    got = ctx.call('marin_integration', marin_integration, *closed(list(map(tuple, q)), 'array'), m, n)
    ctx.close('quad', got, tot, 1e-9, 1e-11 * scale(ring, m, n), ring=ring, m=m, n=n)
    ctx.sig(kind, m, n)
