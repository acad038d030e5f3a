"""C17: reinforcement layouts place the requested bars exactly."""
import math

import numpy as np

from structuralcodes.geometry import (
    CompoundGeometry, add_reinforcement, add_reinforcement_circle,
    add_reinforcement_line,
)

from .. import gen
from ..core import Module
from .c16 import any_geo, material, same_state, state
from structuralcodes.geometry import PointGeometry

M = Module(
    'C17',
    'random segments, arcs and whole circles with every combination of n, s, '
    'first, last on surfaces and compounds; oracle: layout rules re-derived '
    '(count, equal spacing, centring, ends, identity data); non-trivial = '
    'distinct (layout, mode, flags, count)',
    required={'mon:count': 400, 'mon:position': 300, 'mon:spacing': 150,
              'mon:identity': 400, 'mon:base': 400, 'mon:rejects': 80},
)


def base(r):
    while True:
        kind, g = any_geo(r)
        if not isinstance(g, PointGeometry):
            return kind, g


def new_points(ctx, g, res, st0, d, mat, group, what):
    """Bars added to g; everything else unchanged."""
    same_state(ctx, st0, state(g), what)
    if not ctx.check('base', isinstance(res, CompoundGeometry), key='type:' + what):
        return None
    st = state(res)
    s0 = st0['s'] if 's' in st0 else [st0]
    p0 = st0['p'] if 's' in st0 else []
    ctx.ev('mon:base')
    same_state(ctx, dict(s=s0, p=p0), dict(s=st['s'], p=st['p'][:len(p0)]), what + '-base')
    new = st['p'][len(p0):]
    for q in new:
        ctx.check('identity', q['d'] == d and q['mat'] is mat and q['group'] == group,
                  key='bar-data:' + what, msg=f"{q['d']} {q['group']}")
        ctx.close('identity', q['area'], math.pi * d * d / 4, 1e-13, key='bar-area')
    return np.array([q['c'][0] for q in new]).reshape(-1, 2)


def keep(pos, first, last):
    n = len(pos)
    return [p for i, p in enumerate(pos) if not (i == 0 and not first) and not (i == n - 1 and not last)]


def args(r):
    d = gen.pick(r, [8, 12.0, 16, 20.0, gen.uni(r, 3, 50)])
    return d, material(r), gen.pick(r, [None, 'top', 'bars1'])


def untouched(ctx, what, *pairs):
    """The caller's own coordinates after the call."""
    for a, v in pairs:
        ctx.check('base', np.array_equal(np.array(a, float), np.array(v, float)), key='argument-changed:' + what, msg=f'{a} was {v}')


def frac(r):
    """Part of a spacing left over, often close to none."""
    f = gen.pick(r, [gen.uni(r, 0.03, 0.97), gen.uni(r, 0.03, 0.97), gen.logu(r, 1e-6, 0.03)])
    return 1 - f if r.integers(2) else f


@M.family(900, 6000)
def single(ctx):
    r = ctx.rng
    kind, g = base(r)
    st0 = state(g)
    d, mat, grp = args(r)
    p = (gen.uni(r, -999, 999), gen.uni(r, -999, 999))
    a = gen.pick(r, [p, list(p), np.array(p)])
    res = ctx.call('add_reinforcement', add_reinforcement, g, a, d, mat, grp)
    untouched(ctx, 'single', (a, p))
    got = new_points(ctx, g, res, st0, d, mat, grp, 'single')
    if got is not None and ctx.check('count', len(got) == 1, key='count:single'):
        ctx.close('position', got[0], p, 0, 0, key='position:single')
    ctx.sig(kind, d, grp)


@M.family(4000, 40000)
def line(ctx):
    r = ctx.rng
    kind, g = base(r)
    st0 = state(g)
    d, mat, grp = args(r)
    sc = gen.logu(r, 0.1, 3000)
    p1 = np.array([gen.uni(r, -2, 2), gen.uni(r, -2, 2)]) * sc
    if r.integers(4) == 0:
        p1 = np.array([-sc / 2, -sc / 3])
        v = np.array(gen.pick(r, [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0]]))
        L = sc
    else:
        a = gen.uni(r, -math.pi, math.pi)
        v = np.array([math.cos(a), math.sin(a)])
        L = sc * gen.uni(r, 0.2, 3)
    p2 = p1 + v * L
    L = float(np.hypot(*(p2 - p1)))
    first, last = bool(r.integers(4)), bool(r.integers(4))
    mode = gen.pick(r, ['n', 'n', 's', 's', 'ns', 'n1'])
    n, s, kw = 0, 0.0, {}
    if mode == 'n':
        n = int(r.integers(2, 30))
        kw = dict(n=n)
        gap, start = L / (n - 1), 0.0
    elif mode == 'n1':
        n = 1
        kw = dict(n=1)
        gap, start = 0.0, None
    elif mode == 's':
        m = int(r.integers(0, 25))
        s = L / (m + frac(r))
        kw = dict(s=s)
        n, gap = m + 1, s
        start = (L - m * s) / 2
    else:
        n = int(r.integers(1, 25))
        s = L / max(n - 1, 1) * (gen.uni(r, 0.05, 0.999) if r.integers(3) else 1 - gen.logu(r, 1e-7, 1e-2))
        kw = dict(n=n, s=s)
        gap, start = s, (L - (n - 1) * s) / 2
    ctx.note(kind=kind, p1=p1, p2=p2, first=first, last=last, **kw)
    conv = gen.pick(r, [tuple, list, np.array])
    if not first or r.integers(2):
        kw['first'] = first
    else:
        first = True
    if not last or r.integers(2):
        kw['last'] = last
    else:
        last = True
    a1, a2, w1, w2 = conv(p1), conv(p2), p1.copy(), p2.copy()
    res = ctx.call('add_reinforcement_line', add_reinforcement_line, g, a1, a2, d, mat, group_label=grp, **kw)
    untouched(ctx, 'line', (a1, w1), (a2, w2))
    exp = [p1 + v * ((start or 0.0) + gap * i) for i in range(n)]
    exp = keep(exp, first, last)
    if not exp:  # no bar left: the geometry itself is returned
        ctx.check('count', state(res).get('p', []) == [] or len(state(res)['p']) == len(st0.get('p', [])), key='count:line:none')
        return
    got = new_points(ctx, g, res, st0, d, mat, grp, 'line')
    if got is None or not ctx.check('count', len(got) == len(exp), key=f'count:line:{mode}', msg=f'{len(got)} bars expected {len(exp)}'):
        return
    tol = 1e-11 * (float(np.abs(p1).max()) + L)
    if mode == 'n1':
        t = (got[0] - p1) @ v
        off = (got[0] - p1) @ np.array([-v[1], v[0]])
        ctx.check('position', -tol <= t <= L + tol and abs(off) <= tol, key='position:line:n1')
    else:
        ctx.close('position', got, exp, 0, tol, key=f'position:line:{mode}')
    if len(got) > 1:
        ctx.close('spacing', np.hypot(*np.diff(got, axis=0).T), np.full(len(got) - 1, gap), 0, 2 * tol, key=f'spacing:line:{mode}')
    ctx.sig(mode, n, first, last)
    # inadmissible requests
    bad = gen.pick(r, ['none', 'fit'])
    if bad == 'none':
        ctx.rejects('rejects', 'line_no_n_s', add_reinforcement_line, g, tuple(p1), tuple(p2), d, mat)
    else:
        k = int(r.integers(2, 20))
        ctx.rejects('rejects', 'line_fit', add_reinforcement_line, g, tuple(p1), tuple(p2), d, mat, n=k,
                    s=L / (k - 1) * (1 + gen.logu(r, 1e-6, 2)))


@M.family(4000, 40000)
def circle(ctx):
    r = ctx.rng
    kind, g = base(r)
    st0 = state(g)
    d, mat, grp = args(r)
    R = gen.logu(r, 0.5, 3000)
    c = np.array([gen.uni(r, -2, 2), gen.uni(r, -2, 2)]) * R
    first, last = bool(r.integers(4)), bool(r.integers(4))
    whole = bool(r.integers(2))
    kw = {}
    if whole:
        a0 = gen.pick(r, [0.0, 0.0, gen.uni(r, -4, 4)])
        a1 = a0 + 2 * math.pi
        if a1 - a0 > 2 * math.pi:
            a0, a1 = 0.0, 2 * math.pi
        if a0:
            kw = dict(start_angle=a0, stop_angle=a1)
    else:
        a0 = gen.uni(r, -4, 4)
        a1 = a0 + (gen.uni(r, 0.1, 6.1) if r.integers(4) else 2 * math.pi - gen.logu(r, 1e-6, 0.1))
        kw = dict(start_angle=a0, stop_angle=a1)
    L = R * (a1 - a0)
    mode = gen.pick(r, ['n', 'n', 's', 's', 'ns', 'n1', 'sexact'])
    gap = start = None
    if mode == 'n':
        n = int(r.integers(2, 30))
        q = dict(n=n)
        gap, start = (L / n if whole else L / (n - 1)), 0.0
    elif mode == 'n1':
        n, q = 1, dict(n=1)
    elif mode in ('s', 'sexact'):
        m = int(r.integers(1, 25))
        f = frac(r) if mode == 's' else 0.0
        s = L / (m + f)
        q = dict(s=s)
        n, gap = m + 1, s
        start = (L - m * s) / 2
        if f == 0.0 and whole:
            n = m  # the last bar would be the first one
    else:
        n = int(r.integers(1, 25))
        s = L / max(n if whole else n - 1, 1) * (gen.uni(r, 0.05, 0.999) if r.integers(3) else 1 - gen.logu(r, 1e-7, 1e-2))
        q = dict(n=n, s=s)
        gap, start = s, (None if whole else (L - (n - 1) * s) / 2)
    ctx.note(kind=kind, c=c, R=R, a0=a0, a1=a1, whole=whole, first=first, last=last, **q)
    kw.update(q)
    if not first or r.integers(2):
        kw['first'] = first
    else:
        first = True
    if not last or r.integers(2):
        kw['last'] = last
    else:
        last = True
    conv = gen.pick(r, [tuple, list, np.array])
    ac, wc = conv(c), c.copy()
    res = ctx.call('add_reinforcement_circle', add_reinforcement_circle, g, ac, R, d, mat, group_label=grp, **kw)
    untouched(ctx, 'circle', (ac, wc))
    what = f'{mode}:{"whole" if whole else "arc"}'
    nexp = len(keep(list(range(n)), first, last))
    if nexp == 0:
        ctx.check('count', len(state(res).get('p', [])) == len(st0.get('p', [])), key='count:circle:none')
        return
    got = new_points(ctx, g, res, st0, d, mat, grp, 'circle')
    if got is None:
        return
    tol = 1e-10 * (float(np.abs(c).max()) + R)
    ctx.close('position', np.hypot(*(got - c).T), np.full(len(got), R), 0, tol, key='radius:' + what)
    if not ctx.check('count', len(got) == nexp, key='count:' + what, msg=f'{len(got)} bars expected {nexp}'):
        return
    if gap is not None and len(got) > 1:
        ch = 2 * R * math.sin(gap / R / 2)
        ctx.close('spacing', np.hypot(*np.diff(got, axis=0).T), np.full(len(got) - 1, ch), 0, 2 * tol, key='spacing:' + what)
        # counter-clockwise order
        v = got - c
        cr = v[:-1, 0] * v[1:, 1] - v[:-1, 1] * v[1:, 0]
        if gap / R < math.pi * 0.999:
            ctx.check('spacing', bool((cr > 0).all()), key='direction:' + what)
    if start is not None:
        ph = a0 + (start + gap * np.arange(n)) / R
        exp = np.array(keep(list(zip(c[0] + R * np.cos(ph), c[1] + R * np.sin(ph))), first, last))
        ctx.close('position', got, exp, 0, tol, key='position:' + what)
    else:  # somewhere on the arc
        ang = (np.arctan2(got[:, 1] - c[1], got[:, 0] - c[0]) - a0 + 1e-9) % (2 * math.pi)
        ctx.check('position', bool((ang <= a1 - a0 + 2e-9).all()), key='onarc:' + what, msg=f'{ang} of {a1 - a0}')
    ctx.sig(what, n, first, last)
    bad = gen.pick(r, ['none', 'fit', 'angle', 'angle2'])
    a = (g, tuple(c), R, d, mat)
    if bad == 'none':
        ctx.rejects('rejects', 'circle_no_n_s', add_reinforcement_circle, *a)
    elif bad == 'fit':
        k = int(r.integers(2, 20))
        ctx.rejects('rejects', 'circle_fit', add_reinforcement_circle, *a, n=k,
                    s=L / (k if whole else k - 1) * (1 + gen.logu(r, 1e-6, 2)), start_angle=a0, stop_angle=a1)
    elif bad == 'angle':
        ctx.rejects('rejects', 'circle_angle', add_reinforcement_circle, *a, n=5, start_angle=a0, stop_angle=a0 - gen.pick(r, [0.0, 0.5, 3.0]))
    else:
        ctx.rejects('rejects', 'circle_angle2', add_reinforcement_circle, *a, n=5, start_angle=a0, stop_angle=a0 + 2 * math.pi + gen.pick(r, [0.1, 3.0]))


@M.family(4000, 30000)
def exact(ctx):
    """Round dimensions, where the bars fill the length exactly."""
    r = ctx.rng
    kind, g = base(r)
    st0 = state(g)
    d, mat, grp = args(r)
    first, last = bool(r.integers(3)), bool(r.integers(3))
    fl = {k: v for k, v in (('first', first), ('last', last)) if not v or r.integers(2)}
    as_int = bool(r.integers(2))
    if r.integers(5):
        # whole numbers along an axis or a 3-4-5 direction: no round-off
        k = int(r.integers(1, 21))
        s = float(gen.pick(r, [25, 50, 100, 120, 150, 200]))
        v = np.array(gen.pick(r, [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0], [0.6, 0.8], [-0.8, 0.6]]))
        if v[0] not in (0.0, 1.0, -1.0):
            s = s / 5 * 5
        p1 = np.array([float(r.integers(-9, 10)) * 10, float(r.integers(-9, 10)) * 10])
        p2 = p1 + np.round(v * (k * s))
        L = float(np.hypot(*(p2 - p1)))
        if L != k * s:
            return
        n = k + 1
        q = gen.pick(r, [dict(s=int(s) if as_int else s), dict(n=n, s=int(s) if as_int else s), dict(n=n)])
        pts = [tuple(int(c) if as_int else float(c) for c in p) for p in (p1, p2)]
        if r.integers(2):  # the same in other units, where nothing is round
            f = gen.pick(r, [1e-3, 0.1, 0.01, 1 / 25.4, 1e3, 1 / 304.8])
            pts, p1, p2, L = [tuple(c * f for c in p) for p in pts], p1 * f, p2 * f, L * f
            q = dict(q, s=q['s'] * f) if 's' in q else q
        res = ctx.call('add_reinforcement_line', add_reinforcement_line, g, *pts, d, mat, group_label=grp, **q, **fl)
        exp = [p1 + (p2 - p1) * i / k for i in range(n)]
        what = 'line'
    else:
        # 2**k intervals on an arc or a circle: no round-off either
        k = 2 ** int(r.integers(0, 6))
        R = float(r.integers(1, 40)) * 25
        whole = bool(r.integers(2))
        a1 = 2 * math.pi if whole else gen.pick(r, [math.pi, math.pi / 2, 1.0, 3.0])
        s = R * a1 / k
        n = k if whole else k + 1
        q = gen.pick(r, [dict(s=s), dict(n=n, s=s), dict(n=n)])
        if whole and 'n' not in q and k == 1:
            return
        ang = {} if whole and r.integers(2) else dict(start_angle=0.0, stop_angle=a1)
        c = (float(r.integers(-9, 10)), float(r.integers(-9, 10)))
        res = ctx.call('add_reinforcement_circle', add_reinforcement_circle, g, c, R, d, mat, group_label=grp, **q, **ang, **fl)
        ph = a1 / k * np.arange(n)
        exp = np.column_stack((c[0] + R * np.cos(ph), c[1] + R * np.sin(ph)))
        p2, L, what = np.array(c), R, 'circle-whole' if whole else 'circle-arc'
    exp = keep(list(exp), first, last)
    what = f'exact:{what}:{"+".join(sorted(q))}'
    if not exp:
        ctx.check('count', len(state(res).get('p', [])) == len(st0.get('p', [])), key='count:' + what)
        return
    got = new_points(ctx, g, res, st0, d, mat, grp, 'exact')
    if got is None or not ctx.check('count', len(got) == len(exp), key='count:' + what, msg=f'{len(got)} bars expected {len(exp)}: {q}'):
        return
    ctx.close('position', got, exp, 0, 1e-10 * (float(np.abs(p2).max()) + L), key='position:' + what)
    ctx.sig(what, len(exp), first, last)
