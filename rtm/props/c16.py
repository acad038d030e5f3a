"""C16: geometry operations preserve area, material and identity data."""
import math

import numpy as np
import shapely
from shapely.geometry import LineString, MultiLineString, MultiPolygon, Point, Polygon

from structuralcodes.geometry import (
    CircularGeometry, CompoundGeometry, PointGeometry, RectangularGeometry,
    SurfaceGeometry,
)
from structuralcodes.materials.basic import ElasticMaterial
from structuralcodes.materials.concrete import create_concrete
from structuralcodes.materials.reinforcement import create_reinforcement

from .. import build, gen, geo
from ..core import Module

M = Module(
    'C16',
    'random surfaces (concave, holes), points, compounds and constructor '
    'shapes under random chains of translate/rotate/mirror/add/subtract/split/'
    'from_geometry; oracle: own coordinates, Green moments of half planes and '
    'point membership; non-trivial = distinct (operation, shape, branch)',
    required={'mon:coords': 400, 'mon:identity': 400, 'mon:inverse': 100,
              'mon:side': 200, 'mon:pieces': 200, 'mon:two_lines': 60,
              'mon:member': 300, 'mon:addition': 100, 'mon:convert': 100,
              'mon:shape': 100, 'mon:extents': 100, 'mon:rejects': 50},
)


def material(r):
    k = int(r.integers(6))
    if k == 0:
        return create_concrete(gen.uni(r, 15, 80), design_code=gen.pick(r, ['ec2_2004', 'mc2010', 'ec2_2023']))
    if k == 1:
        return create_reinforcement(fyk=500, Es=200000, ftk=550, epsuk=0.07,
                                    design_code=gen.pick(r, ['ec2_2004', 'mc2010', 'ec2_2023']))
    if k == 2:
        return ElasticMaterial(E=gen.uni(r, 1e3, 2e5), density=gen.uni(r, 100, 8000))
    return build.material(dict(law=gen.law_any(r), density=gen.uni(r, 500, 8000)))


def label(r, tag):
    return gen.pick(r, [None, f'{tag}{int(r.integers(1000))}'])


def surface(r, mat=None, size=None):
    kind, rings = gen.placed_shape(r, size)
    poly = Polygon(rings[0], rings[1:] or None)
    if not poly.is_valid:
        return surface(r, mat, size)
    g = SurfaceGeometry(poly, mat or material(r), concrete=bool(r.integers(2)),
                        name=label(r, 'surf'), group_label=label(r, 'grp'))
    return kind, g


def point(r, mat=None, size=1000.0):
    p = (gen.uni(r, -size, size), gen.uni(r, -size, size))
    return PointGeometry(gen.pick(r, [Point(p), p, np.array(p), list(p)]), gen.uni(r, 4, 40),
                         mat or material(r), name=label(r, 'pt'), group_label=label(r, 'grp'))


def compound(r):
    mats = [material(r) for _ in range(3)]
    size = gen.logu(r, 50, 3000)
    parts, off = [], 0.0
    for _ in range(int(r.integers(1, 4))):
        kind, rings = gen.shape(r, size)
        lo, hi = gen.bounds(rings)
        rings = gen.xform(rings, 0, off - lo[0], 0)
        off += (hi[0] - lo[0]) * gen.uni(r, 1.01, 1.3)
        poly = Polygon(rings[0], rings[1:] or None)
        if not poly.is_valid:
            return compound(r)
        parts.append(SurfaceGeometry(poly, gen.pick(r, mats), concrete=bool(r.integers(2)),
                                     name=label(r, 'surf'), group_label=label(r, 'grp')))
    for _ in range(int(r.integers(0, 5))):
        parts.append(point(r, gen.pick(r, mats), size))
    r.shuffle(parts)
    if r.integers(3) == 0 and len(parts) > 1:
        parts = [CompoundGeometry(parts[:1]), *parts[1:]]
    if r.integers(4) == 0:  # all on one side, far away
        d = np.array([gen.pick(r, [-1, 1]), gen.pick(r, [-1, 1])]) * gen.logu(r, 1e3, 3e5)
        parts = [p.translate(*d) for p in parts]
    return CompoundGeometry(list(parts))


def state(g):
    """Observable state of a geometry."""
    if isinstance(g, CompoundGeometry):
        return dict(s=[state(q) for q in g.geometries], p=[state(q) for q in g.point_geometries],
                    extra=(g.area, g.reinforced_concrete))
    if isinstance(g, PointGeometry):
        return dict(c=np.array([[g.x, g.y]]), rings=None, d=g.diameter, area=g.area, mat=g.material,
                    name=g.name, group=g.group_label, den=g.density)
    rings = [np.array(g.polygon.exterior.coords)] + [np.array(i.coords) for i in g.polygon.interiors]
    return dict(rings=rings, mat=g.material, concrete=g.concrete, name=g.name,
                group=g.group_label, den=g.density, area=g.area)


def flat(st):
    return [*st['s'], *st['p']] if 's' in st else [st]


def same_state(ctx, a, b, what):
    fa, fb = flat(a), flat(b)
    ok = len(fa) == len(fb)
    for x, y in zip(fa, fb):
        for k in x:
            if k == 'rings':
                ok &= x[k] is None and y[k] is None or (
                    len(x[k]) == len(y[k]) and all(p.shape == q.shape and (p == q).all() for p, q in zip(x[k], y[k])))
            elif k == 'c':
                ok &= bool((x[k] == y[k]).all())
            elif k == 'mat':
                ok &= x[k] is y[k]
            else:
                ok &= x[k] == y[k]
    ctx.check('untouched', ok, key='untouched:' + what, msg=f'operand changed by {what}')


class Map:
    """Affine map p -> A p + b."""

    def __init__(self, A=None, b=None):
        self.A = np.eye(2) if A is None else A
        self.b = np.zeros(2) if b is None else b

    def then(self, A, b):
        return Map(A @ self.A, A @ self.b + b)

    def __call__(self, c):
        return np.asarray(c)[:, :2] @ self.A.T + self.b


def rot(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def random_motion(r, size, last=None):
    """(name, apply(geometry), A, b, apply inverse).

    last: arguments of earlier motions, some of which are taken over now and
    then (parallel axes, one angle about several points, ...)."""
    last = {} if last is None else last
    k = int(r.integers(3))

    def num(a, b):
        """Plain numbers now and then: exactly repeatable sums."""
        v = gen.uni(r, a, b) * size
        return round(v * 8) / 8 if exact else v

    def arg(name, new):
        if name in last and r.integers(3) == 0:
            return last[name]
        last[name] = new
        return new

    exact = bool(r.integers(2))
    if k == 0:
        dx, dy = arg('dx', num(-3, 3)), arg('dy', num(-3, 3))
        mode = int(r.integers(4))
        if mode == 1:
            dx = 0.0
        if mode == 2:
            dy = 0.0
        f = (lambda g: g.translate(dx, dy)) if r.integers(2) else (
            lambda g: g.translate(dy=dy) if dx == 0 else g.translate(dx=dx) if dy == 0 else g.translate(dx=dx, dy=dy))
        return 'translate', f, np.eye(2), np.array([dx, dy]), lambda g: g.translate(-dx, -dy)
    if k == 1:
        a = arg('angle', gen.pick(r, [0.0, math.pi / 2, math.pi, -math.pi / 2, gen.uni(r, -7, 7), gen.uni(r, -7, 7)]))
        p = arg('point', gen.pick(r, [(0.0, 0.0), (num(-2, 2), num(-2, 2))]))
        rad = bool(r.integers(2))
        aa = a if rad else math.degrees(a)
        default = p == (0.0, 0.0) and rad and r.integers(2)
        f = (lambda g: g.rotate(aa)) if default else (lambda g: g.rotate(angle=aa, point=p, use_radians=rad))
        A = rot(a)
        pp = np.array(p)
        return 'rotate', f, A, pp - A @ pp, lambda g: g.rotate(-aa, p, rad)
    p = np.array(arg('from', (num(-2, 2), num(-2, 2))))
    a = gen.pick(r, [0.0, math.pi / 2, math.pi, gen.uni(r, -4, 4), gen.uni(r, -4, 4)])
    d = size * gen.uni(r, 0.1, 3) * np.array([math.cos(a), math.sin(a)])
    if exact:
        q = max(1.0, round(size * gen.uni(r, 0.1, 3)))
        d = q * np.array(gen.pick(r, [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (1.0, -2.0), (-3.0, 1.0)]))
    d = np.array(arg('along', tuple(float(v) for v in d)))
    q = p + d
    u = d / np.hypot(*d)
    axis = LineString([tuple(p), tuple(q)])
    A = 2 * np.outer(u, u) - np.eye(2)
    return 'mirror', (lambda g: g.mirror(axis)), A, p - A @ p, lambda g: g.mirror(axis)


def compare(ctx, st0, st1, m, size, what):
    a, b = flat(st0), flat(st1)
    if not ctx.check('identity', len(a) == len(b) and ('s' in st0) == ('s' in st1), key='parts:' + what,
                     msg=f'{len(a)} parts became {len(b)}'):
        return
    for x, y in zip(a, b):
        kind = 'point' if x['rings'] is None else 'surface'
        ctx.check('identity', x['mat'] is y['mat'], key=f'material:{what}:{kind}', msg='material replaced')
        for k in ('name', 'group', 'concrete', 'd', 'den'):
            if k in x:
                ctx.check('identity', x[k] == y[k], key=f'{k}:{what}:{kind}', msg=f'{x[k]!r} became {y[k]!r}')
        ctx.close('area', y['area'], x['area'], 1e-9, 1e-12 * size**2 + 1e-13 * size * float(np.abs(m.b).sum()), key=f'area:{what}:{kind}')
        tol = 1e-11 * (size + float(np.abs(m.b).sum())) * 4
        if kind == 'point':
            ctx.close('coords', y['c'], m(x['c']), 0, tol, key=f'coords:{what}:point')
        else:
            if not ctx.check('coords', len(x['rings']) == len(y['rings']), key=f'rings:{what}'):
                continue
            for p, q in zip(x['rings'], y['rings']):
                ctx.close('coords', q, m(p), 0, tol, key=f'coords:{what}:surface')


def any_geo(r):
    k = int(r.integers(4))
    if k == 0:
        return 'point', point(r)
    if k == 1:
        return surface(r)
    if k == 2:
        return 'compound', compound(r)
    if r.integers(2):
        return 'rectgeo', RectangularGeometry(gen.uni(r, 10, 900), gen.uni(r, 10, 900), material(r), bool(r.integers(2)),
                                              (gen.uni(r, -500, 500), gen.uni(r, -500, 500)), label(r, 'n'), label(r, 'g'))
    return 'circgeo', CircularGeometry(gen.uni(r, 10, 900), material(r), int(r.integers(2, 12)) * 4, bool(r.integers(2)),
                                       (gen.uni(r, -500, 500), gen.uni(r, -500, 500)), label(r, 'n'), label(r, 'g'))


def extent(st):
    return max(float(np.abs(np.vstack([*x['rings']]) if x['rings'] is not None else x['c']).max()) for x in flat(st)) + 1e-3


@M.family(4000, 12000)
def motions(ctx):
    r = ctx.rng
    kind, g = any_geo(r)
    st0 = state(g)
    size = extent(st0)
    ctx.note(kind=kind)
    m, cur, ops, inv, last = Map(), g, [], [], {}
    big = size
    for _ in range(int(r.integers(1, 6))):
        name, f, A, b, back = random_motion(r, size, last)
        before = state(cur)
        new = ctx.call(name, f, cur)
        same_state(ctx, before, state(cur), name)
        ctx.check('new_object', new is not cur, key='same-object:' + name)
        m = m.then(A, b)
        big += float(np.abs(b).sum())
        ops.append(name)
        inv.append(back)
        cur = new
    compare(ctx, st0, state(cur), Map(m.A, m.b), big, ops[-1] if len(ops) == 1 else 'chain')
    if not isinstance(cur, PointGeometry):
        xy = np.vstack([np.vstack(q['rings']) for q in flat(state(cur)) if q['rings'] is not None])
        ctx.close('extents', ctx.call('extents', cur.calculate_extents), [f(xy[:, k]) for k in (0, 1) for f in (np.min, np.max)], 0, 0,
                  key='extents:' + kind)
    for back in reversed(inv):
        cur = ctx.call('inverse', back, cur)
    ctx.ev('mon:inverse')
    compare(ctx, st0, state(cur), Map(), big * 4, 'inverse')
    same_state(ctx, st0, state(g), 'chain')
    ctx.sig(kind, ops)
    ctx.rejects('rejects', 'mirror_axis', g.mirror, gen.pick(r, [((0, 0), (1, 1)), Point(0, 0), None]), exc=(TypeError,))


def line_through(r, g):
    """A line meeting (usually) the surface: ('tuple'|'line', arg, normal, off, kind)."""
    pts = np.array(g.polygon.exterior.coords)[:-1]
    lo, hi = pts.min(0), pts.max(0)
    mode = gen.pick(r, ['any', 'any', 'vertical', 'horizontal', 'near-vertical', 'vertex', 'miss', 'edge'])
    p = lo + (hi - lo) * r.uniform(0.02, 0.98, 2)
    th = gen.uni(r, -math.pi, math.pi)
    if mode == 'vertical':
        th = gen.pick(r, [math.pi / 2, -math.pi / 2])
    if mode == 'horizontal':
        th = gen.pick(r, [0.0, math.pi, -math.pi])
    if mode == 'near-vertical':
        th = math.pi / 2 + gen.pick(r, [-1, 1]) * gen.logu(r, 1e-5, 1e-2)
    if mode == 'vertex':
        p = pts[int(r.integers(len(pts)))]
    if mode == 'edge':
        i = int(r.integers(len(pts)))
        p, d = pts[i], pts[(i + 1) % len(pts)] - pts[i]
        th = math.atan2(d[1], d[0])
    if mode == 'miss':
        n = np.array([-math.sin(th), math.cos(th)])
        p = p + n * (np.max(pts @ n) - p @ n + float(np.max(hi - lo)) * gen.uni(r, 0.01, 1))
    return mode, p, th


@M.family(4000, 12000)
def splits(ctx):
    r = ctx.rng
    if r.integers(5) == 0:
        kind, g = 'rectgeo', RectangularGeometry(gen.uni(r, 10, 900), gen.uni(r, 10, 900), material(r), origin=(gen.uni(r, -900, 900), gen.uni(r, -900, 900)))
    else:
        kind, g = surface(r, size=gen.logu(r, 0.2, 3000))
    if isinstance(g, SurfaceGeometry) and not g.polygon.is_valid:
        return
    st = geo.surf_of(g.polygon)
    before = state(g)
    mode, p, th = line_through(r, g)
    u = np.array([math.cos(th), math.sin(th)])
    pts = np.array(st['ext'])
    ext = float(np.max(np.ptp(pts, axis=0)))
    mag = float(np.abs(pts).max())
    form = gen.pick(r, ['tuple', 'tuple', 'line'])
    if form == 'tuple':
        if abs(u[0]) > 1e-8 and u[0] < 0 or abs(u[0]) <= 1e-8 and u[1] < 0:
            uo = -u
        else:
            uo = u
        arg = (gen.pick(r, [tuple(p), Point(p)]) if False else tuple(float(v) for v in p), th)
    else:
        uo = u
        far = 3 * (ext + float(np.max(np.abs(pts - p))))
        arg = LineString([tuple(p - u * far), tuple(p + u * far)])
    n = np.array([-uo[1], uo[0]])
    ctx.note(kind=kind, mode=mode, form=form, p=p, theta=th, surf=st)
    above, below = ctx.call('split', g.split, arg)
    same_state(ctx, before, state(g), 'split')
    # round-off of the constructed line: long lines for steep angles
    tan = abs(u[1] / u[0]) if abs(u[0]) > 1e-8 else 1.0
    tol = (1e-9 if form == 'tuple' else 1e-10) * (ext + mag) * (1 + (1e-6 * tan if form == 'tuple' else 0))
    off = float(n @ p)
    for name, pieces, lo, hi in (('above', above, 0.0, math.inf), ('below', below, -math.inf, 0.0)):
        surfs = []
        for q in pieces:
            ctx.check('pieces', q.geom_type == 'Polygon' and q.is_valid, key='piece-invalid:' + form)
            s = geo.surf_of(q)
            d = np.array(s['ext']) @ n - off
            ctx.check('side', d.min() >= lo - tol and d.max() <= hi + tol, key=f'side:{name}:{form}',
                      msg=f'{name} piece spans {d.min()}..{d.max()}')
            surfs.append(s)
        got = geo.moments(surfs)[0] if surfs else np.zeros(6)
        exp, mg = geo.moments([st], n, off, lo, hi)
        whole, _ = geo.moments([st])
        R = mag + ext
        sc = ext * ext * np.array([1, R, R, R * R, R * R, R * R])
        slack = tol * ext * 8 * np.array([1, R, R, R * R, R * R, R * R])
        ctx.close('pieces', got, exp, 0, 1e-10 * sc + slack, key=f'moments:{name}:{form}', msg=f'{mode}')
    ctx.sig(kind, mode, form, len(above), len(below))


@M.family(1500, 4000)
def two_lines(ctx):
    r = ctx.rng
    kind, g = surface(r)
    st = geo.surf_of(g.polygon)
    pts = np.array(st['ext'])
    ext, mag = float(np.max(np.ptp(pts, axis=0))), float(np.abs(pts).max())
    th = gen.pick(r, [0.0, math.pi / 2, gen.uni(r, -3.1, 3.1)])
    u = np.array([math.cos(th), math.sin(th)])
    n = np.array([-u[1], u[0]])
    d = pts @ n
    a, b = np.sort(r.uniform(d.min() - 0.2 * ext, d.max() + 0.2 * ext, 2))
    if r.integers(3) == 0:  # along an edge, through a vertex
        i = int(r.integers(len(pts) - 1))
        u = pts[i + 1] - pts[i]
        u = u / np.hypot(*u)
        n = np.array([-u[1], u[0]])
        d = pts @ n
        a, b = np.sort([pts[i] @ n, gen.pick(r, [pts[int(r.integers(len(pts)))] @ n, gen.uni(r, d.min(), d.max())])])
        if b - a < 1e-6 * ext:
            b = d.max() + 0.1 * ext
    mid = pts.mean(0)
    base = u * float(u @ mid)
    far = 4 * ext
    lines = [LineString([tuple(base + n * o - u * far * s), tuple(base + n * o + u * far * s)]) for o, s in ((a, 1), (b, gen.pick(r, [1, -1])))]
    if r.integers(2):
        lines = lines[::-1]
    arg = MultiLineString(lines) if r.integers(2) else tuple(lines)
    ctx.note(kind=kind, surf=st, theta=th, a=a, b=b)
    res = ctx.call('split_two_lines', g.split_two_lines, arg)
    polys = [q for q in getattr(res, 'geoms', [res]) if q.geom_type == 'Polygon' and not q.is_empty]
    got = geo.moments([geo.surf_of(q) for q in polys])[0] if polys else np.zeros(6)
    exp, _ = geo.moments([st], n, 0.0, a, b)
    R = mag + ext
    ctx.close('two_lines', got, exp, 0, 1e-9 * ext * R * np.array([1, R, R, R * R, R * R, R * R]), key='two_lines')
    ctx.rejects('rejects', 'two_lines', g.split_two_lines, (lines[0],) if r.integers(2) else (lines[0], lines[1], lines[0]), exc=(RuntimeError,))
    ctx.sig(kind, len(polys), th)


@M.family(2500, 8000)
def algebra(ctx):
    r = ctx.rng
    # addition
    gs = [any_geo(r)[1] for _ in range(int(r.integers(2, 5)))]
    before = [state(g) for g in gs]
    tot = gs[0]
    for g in gs[1:]:
        tot = ctx.call('add', lambda a, b: a + b, tot, g)
    exp_s = [q for s in before for q in (s['s'] if 's' in s else [s] if s['rings'] is not None else [])]
    exp_p = [q for s in before for q in (s['p'] if 's' in s else [s] if s['rings'] is None else [])]
    ctx.ev('mon:addition')
    same_state(ctx, dict(s=exp_s, p=exp_p), state(tot), 'add-result')
    for g, s in zip(gs, before):
        same_state(ctx, s, state(g), 'add')
    ctx.close('addition', tot.area, sum(q['area'] for q in exp_s), 1e-12, key='compound-area')
    ctx.check('addition', tot.reinforced_concrete == any(q['concrete'] for q in exp_s), key='reinforced-flag')
    if exp_s:
        c = np.vstack([q['rings'][0] for q in exp_s])
        ctx.close('extents', tot.calculate_extents(), (c[:, 0].min(), c[:, 0].max(), c[:, 1].min(), c[:, 1].max()), 0, 0, key='extents')
    for attr in ('name', 'group_label'):
        ctx.call('compound_' + attr, getattr, tot, attr)
    ctx.check('addition', isinstance(tot.name, str), key='compound-name')


@M.family(2500, 8000)
def subtract(ctx):
    r = ctx.rng
    comp = bool(r.integers(2))
    A = compound(r) if comp else surface(r, size=gen.uni(r, 200, 1500))[1]
    stA = state(A)
    parts = stA['s'] if comp else [stA]
    c = np.vstack([q['rings'][0] for q in parts])
    lo, hi = c.min(0), c.max(0)
    span = float(np.max(hi - lo))

    def cutter():
        kind, rings = gen.shape(r, span * gen.uni(r, 0.1, 0.6), gen.pick(r, ['rect', 'circle', 'tri', 'L', 'I', 'box']))
        q = lo + (hi - lo) * r.uniform(-0.1, 1.1, 2)
        rings = gen.xform(rings, gen.uni(r, -3, 3), float(q[0]), float(q[1]))
        if r.integers(3) == 0:  # share an edge, from inside or outside
            e = gen.pick(r, parts)['rings'][0]
            i = int(r.integers(len(e) - 1))
            d = e[i + 1] - e[i]
            u = d / np.hypot(*d)
            n = np.array([-u[1], u[0]]) * gen.pick(r, [-1, 1]) * span * gen.uni(r, 0.05, 0.5)
            a, b = np.sort(r.uniform(-0.5, 1.5, 2)) if r.integers(2) else (0.0, 1.0)
            rings = [[tuple(e[i] + d * a), tuple(e[i] + d * b), tuple(e[i] + d * b + n), tuple(e[i] + d * a + n)]]
        p = Polygon(rings[0], rings[1:] or None)
        return SurfaceGeometry(p, material(r), name='cut', group_label='cutgrp')

    mode = gen.pick(r, ['surface', 'surface', 'compound', 'point'])
    if mode == 'surface':
        B, cut = (x := cutter()), [x]
    elif mode == 'compound':
        cut = [cutter() for _ in range(int(r.integers(1, 3)))]
        B = CompoundGeometry([*cut, *[point(r, size=span) for _ in range(int(r.integers(0, 2)))]])
    else:
        B, cut = point(r, size=span), []
    stB = state(B)
    ctx.note(comp=comp, mode=mode)
    res, ex = ctx.attempt('sub', lambda a, b: a - b, A, B)
    same_state(ctx, stA, state(A), 'sub-left')
    same_state(ctx, stB, state(B), 'sub-right')
    if ex is not None:
        # a part falling into several pieces cannot be one surface
        multi = False
        for q in parts:
            p = Polygon(q['rings'][0], [list(h) for h in q['rings'][1:]])
            p2 = p
            for k in cut:
                p = p - k.polygon
                p2 = shapely.difference(p2, k.polygon, grid_size=1e-11 * span) if not p2.is_empty else p2
            multi |= p.geom_type != 'Polygon' or p2.geom_type != 'Polygon'
        ctx.check('member', multi and isinstance(ex, (TypeError, ValueError)), key='sub-raises', msg=repr(ex))
        ctx.ev('sub_rejected_multi')
        return
    st = state(res)
    got = st['s'] if 's' in st else [st]
    if not ctx.check('identity', ('s' in st) == comp and len(got) == len(parts), key='sub-parts'):
        return
    if comp:
        a, b = stA['p'], st['p']
        same_state(ctx, dict(s=[], p=a), dict(s=[], p=b), 'sub-points')
    cs = [geo.surf_of(k.polygon) for k in cut]
    for x, y in zip(parts, got):
        for k in ('mat', 'concrete', 'name', 'group'):
            ctx.check('identity', x[k] is y[k] if k == 'mat' else x[k] == y[k], key=f'{k}:sub', msg=f'{x[k]!r} became {y[k]!r}')
        sx = dict(ext=x['rings'][0][:-1].tolist(), holes=[h[:-1].tolist() for h in x['rings'][1:]])
        sy = dict(ext=y['rings'][0][:-1].tolist(), holes=[h[:-1].tolist() for h in y['rings'][1:]])
        pl, ph = np.min(sx['ext'], axis=0), np.max(sx['ext'], axis=0)
        for _ in range(30):
            q = pl + (ph - pl) * r.uniform(-0.05, 1.05, 2)
            exp, d = geo.inside(sx, q)
            for k in cs:
                i, dd = geo.inside(k, q)
                exp, d = exp and not i, min(d, dd)
            if d < 1e-6 * span:
                continue
            i = bool(sy['ext']) and geo.inside(sy, q)[0]
            ctx.check('member', i == exp, key='sub-member', msg=f'{q} inside={i} expected {exp}')
    ctx.sig(comp, mode, len(parts), [len(y['rings']) for y in got])


@M.family(2000, 6000)
def convert(ctx):
    r = ctx.rng
    kind, g = any_geo(r)
    cls = CompoundGeometry if isinstance(g, CompoundGeometry) else PointGeometry if isinstance(g, PointGeometry) else SurfaceGeometry
    st0 = state(g)
    new = gen.pick(r, [None, None, ElasticMaterial(E=1000.0, density=1.0), material(r)])
    if any(not x['mat'].constitutive_law.get_tangent(0.0) > 0 for x in flat(st0)):
        new = new or material(r)  # no elastic material without stiffness
    res = ctx.call('from_geometry', cls.from_geometry, g, new) if new is not None or r.integers(2) else ctx.call('from_geometry', cls.from_geometry, geo=g)
    same_state(ctx, st0, state(g), 'from_geometry')
    a, b = flat(st0), flat(state(res))
    if not ctx.check('convert', len(a) == len(b), key='convert-parts'):
        return
    for x, y in zip(a, b):
        what = 'point' if x['rings'] is None else 'surface'
        for k in ('name', 'group', 'd'):
            if k in x:
                ctx.check('convert', x[k] == y[k], key=f'{k}:convert:{what}', msg=f'{x[k]!r} became {y[k]!r}')
        if x['rings'] is None:
            ctx.close('convert', y['c'], x['c'], 0, 0, key='convert-coords')
        else:
            ctx.check('convert', all(p.shape == q.shape and (p == q).all() for p, q in zip(x['rings'], y['rings'])) and len(x['rings']) == len(y['rings']), key='convert-rings')
        if new is not None:
            ctx.check('convert', y['mat'] is new, key='convert-material')
        else:
            E = float(x['mat'].constitutive_law.get_tangent(0.0))
            law = y['mat'].constitutive_law
            e = gen.uni(r, -0.01, 0.01)
            ctx.check('convert', isinstance(y['mat'], ElasticMaterial), key='convert-elastic')
            ctx.close('convert', [y['mat'].E, float(law.get_stress(e)), y['mat'].density], [E, E * e, x['den']], 1e-12, 1e-12, key='convert-elastic-law')
    bad = object()
    ctx.rejects('rejects', 'convert_material', cls.from_geometry, g, bad, exc=(TypeError,))
    other = gen.pick(r, [c for c in (CompoundGeometry, PointGeometry, SurfaceGeometry) if c is not cls])
    ctx.rejects('rejects', 'convert_type', other.from_geometry, g, exc=(TypeError,))
    ctx.sig(kind, new is None)


@M.family(2000, 5000)
def construct(ctx):
    r = ctx.rng
    mat = material(r)
    w, h = gen.logu(r, 0.1, 3000), gen.logu(r, 0.1, 3000)
    o = gen.pick(r, [None, (0.0, 0.0), (gen.uni(r, -3000, 3000), gen.uni(r, -3000, 3000)), [gen.uni(r, -30, 30), 5], np.array([3.0, gen.uni(r, -30, 30)])])
    oo = np.array([0.0, 0.0]) if o is None else np.asarray(o, float)
    flag = bool(r.integers(2))
    conc = flag or type(mat).__name__.startswith('Concrete')
    g = ctx.call('rect', RectangularGeometry, w, h, mat, flag, o, 'nm', 'gl')
    mg = float(np.abs(oo).max() + w + h)
    sgn = sorted((round(float((c[0] - oo[0]) / w * 2)), round(float((c[1] - oo[1]) / h * 2))) for c in list(g.polygon.exterior.coords)[:-1])
    ctx.check('shape', sgn == [(-1, -1), (-1, 1), (1, -1), (1, 1)], key='rect-corners', msg=f'{sgn}')
    ctx.close('shape', g.calculate_extents(), (oo[0] - w / 2, oo[0] + w / 2, oo[1] - h / 2, oo[1] + h / 2), 0, 1e-13 * mg, key='rect-extents')
    ctx.close('shape', [g.area, *g.centroid, g.width, g.height], [w * h, *oo, w, h], 1e-9, 1e-11 * mg + 1e-12 * mg * mg, key='rect-values')
    ctx.check('shape', g.material is mat and g.concrete == conc and g.name == 'nm' and g.group_label == 'gl' and g.density == mat.density, key='rect-id')
    D, n = gen.logu(r, 0.1, 3000), int(r.integers(2, 20)) * 4
    g = ctx.call('circ', CircularGeometry, D, mat, n, flag, o, 'nm', 'gl')
    c = np.array(g.polygon.exterior.coords)[:-1] - oo
    mg = float(np.abs(oo).max() + D)
    ctx.close('shape', np.hypot(c[:, 0], c[:, 1]), np.full(n, D / 2), 0, 1e-12 * mg, key='circ-radius')
    ang = np.sort(np.unwrap(np.arctan2(c[:, 1], c[:, 0])))
    ctx.close('shape', np.diff(ang), np.full(n - 1, 2 * math.pi / n), 1e-6 + 1e-10 * mg / D, key='circ-spacing')
    ctx.close('shape', [g.area, g.radius, g.diameter], [n / 8 * D * D * math.sin(2 * math.pi / n), D / 2, D], 1e-9, 1e-11 * mg * mg, key='circ-values')
    ctx.check('shape', g.material is mat and g.concrete == conc and g.name == 'nm' and g.group_label == 'gl', key='circ-id')
    default = CircularGeometry(D, mat)
    ctx.check('shape', len(default.polygon.exterior.coords) == 21, key='circ-default')
    for bad in (0, -gen.uni(r, 0, 10)):
        ctx.rejects('rejects', 'rect_w', RectangularGeometry, bad, h, mat)
        ctx.rejects('rejects', 'rect_h', RectangularGeometry, w, bad, mat)
        ctx.rejects('rejects', 'circ_d', CircularGeometry, bad, mat)
    ctx.rejects('rejects', 'rect_o', RectangularGeometry, w, h, mat, origin=gen.pick(r, [(1.0,), (1.0, 2.0, 3.0)]))
    ctx.rejects('rejects', 'circ_o', CircularGeometry, D, mat, origin=gen.pick(r, [(1.0,), (1.0, 2.0, 3.0)]))
    ctx.rejects('rejects', 'surf_poly', SurfaceGeometry, gen.pick(r, [Point(0, 0), [(0, 0), (1, 0), (1, 1)], None]), mat, exc=(TypeError,))
    ctx.rejects('rejects', 'surf_mat', SurfaceGeometry, g.polygon, gen.pick(r, [None, 3.0, mat.constitutive_law]), exc=(TypeError,))
    ctx.rejects('rejects', 'pt_mat', PointGeometry, (0.0, 1.0), 10.0, gen.pick(r, [None, 3.0, mat.constitutive_law]), exc=(TypeError,))
    ctx.rejects('rejects', 'pt_coords', PointGeometry, gen.pick(r, [(1.0,), 5.0]), 10.0, mat)
    # points
    d = gen.uni(r, 1, 60)
    q = (gen.uni(r, -9, 9), gen.uni(r, -9, 9))
    p = PointGeometry(gen.pick(r, [q, list(q), np.array(q), Point(q), (*q, 4.0)]), d, mat, 'a', 'b')
    ctx.close('shape', [p.x, p.y, p.area, p.diameter, p.density], [*q, math.pi * d * d / 4, d, mat.density], 1e-14, key='point')
    # compounds of multipolygons
    k = int(r.integers(2, 5))
    polys = [Polygon(gen.rect(gen.uni(r, 1, 9), gen.uni(r, 1, 9), 20.0 * i, 0.0)) for i in range(k)]
    mats = [material(r) for _ in range(k)]
    use = gen.pick(r, [mats, mats[0]])
    c = ctx.call('multipolygon', CompoundGeometry, MultiPolygon(polys), use)
    exp = [dict(rings=[np.array(p.exterior.coords)], mat=use if use is mats[0] else mats[i]) for i, p in enumerate(polys)]
    got = [dict(rings=q['rings'], mat=q['mat']) for q in state(c)['s']]
    same_state(ctx, dict(s=exp, p=[]), dict(s=got, p=state(c)['p']), 'multipolygon')
    ctx.check('shape', c.reinforced_concrete == any(type(e['mat']).__name__.startswith('Concrete') for e in exp), key='multi-reinforced')
    ctx.rejects('rejects', 'multi_len', CompoundGeometry, MultiPolygon(polys), mats[:-1])
    ctx.sig(o is None, n, flag, type(mat).__name__)
