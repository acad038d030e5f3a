"""C09: analyses never modify the objects handed to them."""
import copy
import math

import numpy as np
import shapely
from shapely.geometry import LineString, MultiLineString, Polygon

from structuralcodes.codes import ec2_2004, mc2010
from structuralcodes.geometry import (
    CompoundGeometry, PointGeometry, SurfaceGeometry, add_reinforcement,
    add_reinforcement_circle, add_reinforcement_line,
)
from structuralcodes.materials.basic import ElasticMaterial, ElasticPlasticMaterial, GenericMaterial
from structuralcodes.materials.concrete import create_concrete
from structuralcodes.materials.constitutive_laws import InitialStrain, Parallel, UserDefined
from structuralcodes.materials.reinforcement import create_reinforcement
from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

from .. import build, gen
from ..core import Module
from . import c16
from .c02 import desc
from .c08 import an_op, outcome
from .c10 import case, theta_of

M = Module(
    'C09',
    'every public call on laws, materials, geometries, sections and time '
    'functions with arguments of all kinds (arrays of any dtype and layout, '
    'write-protected or not, lists, tuples); bit-exact snapshots of arguments '
    'and observable state of all reachable objects before and after, results '
    'handed out earlier stay as they were; non-trivial = distinct (object, '
    'call, kind of argument)',
    required={'mon:argument': 2000, 'mon:law': 600, 'mon:material': 300, 'mon:geometry': 600,
              'mon:earlier-result': 500, 'mon:section': 300},
)


# -- snapshots -------------------------------------------------------------
def freeze(x, depth=0):
    """Bit-exact image of an argument or result."""
    if depth > 6:
        return None
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    if isinstance(x, dict):
        return ('d', [(k, freeze(x[k], depth + 1)) for k in x])
    if isinstance(x, (np.generic, float, int, str, bool, type(None), complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, shapely.Geometry):
        return ('g', x.wkb)
    return ('o', id(x))


def law_grid(law):
    a, b = (float(v) for v in law.get_ultimate_strain())
    a, b = max(a, -0.3), min(b, 0.3)
    fr = np.array([-1.1, -1, -0.999, -0.7, -0.4, -0.1, -1e-3, 0, 1e-3, 0.1, 0.4, 0.7, 0.999, 1, 1.1])
    return np.where(fr < 0, -fr * a, fr * b)


def law_state(law, grid):
    out = [law.name]
    for f in (law.get_stress, law.get_tangent, law.get_secant):
        out.append(freeze(f(grid.copy())))
        out.append(freeze(f(float(grid[4]))))
    for y in (False, True):
        out.append(freeze(law.get_ultimate_strain(yielding=y)))
    for s in ([float(grid[5]), 0.0], [float(grid[3]), 1e-5], [0.0, -1e-5]):
        out.append(freeze(law.__marin__(strain=list(s))))
        out.append(freeze(law.__marin_tangent__(strain=list(s))))
    return out


def mat_state(m):
    out = [type(m).__name__, id(m.constitutive_law)]
    for k in sorted(dir(type(m))):
        if k.startswith('_') or not isinstance(getattr(type(m), k, None), property):
            continue
        try:
            v = getattr(m, k)
        except Exception as ex:  # noqa: BLE001
            v = repr(ex)
        out.append((k, freeze(v)))
    return out


def geo_state(g):
    if isinstance(g, CompoundGeometry):
        return ('c', [geo_state(q) for q in g.geometries], [geo_state(q) for q in g.point_geometries],
                repr(g.area), g.reinforced_concrete, repr(g.calculate_extents()) if g.geometries else '')
    if isinstance(g, PointGeometry):
        return ('p', g.point.wkb, repr(g.x), repr(g.y), repr(g.diameter), repr(g.area), id(g.material), g.name,
                g.group_label, repr(g.density))
    return ('s', g.polygon.wkb, repr(g.area), repr(g.centroid), g.concrete, id(g.material), g.name, g.group_label,
            repr(g.density), repr(g.calculate_extents()))


class Watch:
    """All objects of interest of a case with their state."""

    def __init__(self, ctx):
        self.ctx, self.objs, self.old = ctx, [], []

    def add(self, kind, obj, fn):
        self.objs.append((kind, obj, fn, fn(obj)))

    def law(self, law):
        if any(o is law for _, o, _, _ in self.objs):
            return law
        grid = law_grid(law)
        self.add('law', law, lambda q: law_state(q, grid))
        return law

    def material(self, m):
        if any(o is m for _, o, _, _ in self.objs):
            return m
        self.add('material', m, mat_state)
        if m.constitutive_law is not None:
            self.law(m.constitutive_law)
        return m

    def geometry(self, g):
        self.add('geometry', g, geo_state)
        for p in ([*g.geometries, *g.point_geometries] if isinstance(g, CompoundGeometry) else [g]):
            self.material(p.material)
        return g

    def section(self, s):
        self.geometry(s.geometry)
        geo = s.geometry
        self.add('section', s, lambda q: (q.name, q.geometry is geo, id(q.section_calculator),
                                          id(q.section_calculator.integrator), q.section_calculator.section is s,
                                          repr(getattr(q.section_calculator, 'mesh_size', None))))
        return s

    def result(self, x, label):
        if len(self.old) < 25:
            self.old.append((label, x, freeze(x)))

    def verify(self, what, **w):
        for kind, obj, fn, st in self.objs:
            now = fn(obj)
            self.ctx.check(kind, now == st, key=f'{kind}-changed:{what}', msg=f'{type(obj).__name__} {diff(st, now)}', **w)
        for label, x, st in self.old:
            self.ctx.check('earlier-result', freeze(x) == st, key=f'earlier-result:{label}:{what}', msg=diff(st, freeze(x)), **w)


def diff(a, b):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return f'[{i}] ' + diff(p, q)
    return f'{str(a)[:200]} -> {str(b)[:200]}'


def strains(r, law, n=None):
    """A strain argument: values inside, outside, at and next to the limits."""
    a, b = (float(v) for v in law.get_ultimate_strain())
    a, b = max(a, -0.3), min(b, 0.3)
    n = n or int(r.integers(1, 9))
    out = []
    for _ in range(n):
        lim = gen.pick(r, [a, b])
        out.append(gen.pick(r, [0.0, lim, lim + gen.pick(r, [-1, 1]) * gen.logu(r, 1e-9, 1e-5),
                                gen.uni(r, a, b) * 1.2, -0.0]))
    kind = gen.pick(r, ['f8', 'f8', 'ro', 'list', 'tuple', 'strided', 'int', 'f4', '2d', '0d', 'reversed', 'bool-list',
                        'intlist'])
    if kind in ('f8', 'ro'):
        x = np.array(out)
        if kind == 'ro':
            x.setflags(write=False)
    elif kind == 'list':
        x = out
    elif kind == 'tuple':
        x = tuple(out)
    elif kind == 'strided':
        x = np.repeat(np.array(out), 2)[::2]
    elif kind == 'reversed':
        x = np.array(out)[::-1]
    elif kind == 'int':
        x = r.integers(-1, 2, n)
    elif kind == 'f4':
        x = np.array(out, dtype=np.float32)
    elif kind == '2d':
        x = np.array([out, out])
    elif kind == '0d':
        x = np.array(out[0])
    else:
        x = [int(v) for v in r.integers(-1, 2, n)]
    return kind, x


def same_arg(ctx, what, x, before, **w):
    now = freeze(x)
    ctx.check('argument', now == before, key='argument:' + what, msg=diff(before, now), **w)


def code_material(r):
    code = gen.pick(r, ['ec2_2004', 'ec2_2023', 'mc2010'])
    if r.integers(2):
        kw = {}
        if r.integers(3) == 0:
            kw['initial_strain'] = gen.uni(r, -5e-4, 5e-4)
        return create_concrete(gen.uni(r, 15, 80), design_code=code,
                               constitutive_law=gen.pick(r, ['parabolarectangle', 'elastic', 'sargin', 'popovics'
                                                             if code != 'ec2_2023' else 'sargin']), **kw)
    kw = {}
    if r.integers(3) == 0:
        kw['initial_stress'] = gen.uni(r, -100, 300)
    return create_reinforcement(fyk=500, Es=200000, ftk=550, epsuk=0.07, design_code=code,
                                constitutive_law=gen.pick(r, ['elasticperfectlyplastic', 'elasticplastic', 'elastic']), **kw)


@M.family(1500, 15000)
def laws(ctx):
    """Queries and wrappers of laws."""
    r = ctx.rng
    sp = gen.law_any(r)
    W = Watch(ctx)
    law = W.law(build.law(sp))
    for _ in range(5):
        what = gen.pick(r, ['stress', 'tangent', 'secant', 'stress', 'tangent', 'secant', 'marin', 'marin_tangent', 'ultimate',
                            'init', 'parallel', 'generic', 'user'])
        if what in ('stress', 'tangent', 'secant'):
            kind, x = strains(r, law)
            b = freeze(x)
            v, e = ctx.attempt(what, getattr(law, 'get_' + what), x)
            if kind not in ('2d', '0d', 'bool-list', 'intlist', 'int') and e is not None:
                ctx.fail(f'raises:{what}', f'{kind} {e!r}', law=sp, arg=x)
            same_arg(ctx, what, x, b, law=sp, kind=kind)
            if e is None:
                W.result(v, what)
            ctx.sig(sp['kind'], what, kind)
        elif what in ('marin', 'marin_tangent'):
            x = gen.pick(r, [list, tuple, np.array])([float(gen.uni(r, -0.004, 0.02)), gen.pick(r, [0.0, gen.uni(r, -1e-4, 1e-4)])])
            b = freeze(x)
            v = ctx.call(what, getattr(law, f'__{what}__'), strain=x)
            same_arg(ctx, what, x, b, law=sp)
            W.result(v, what)
        elif what == 'ultimate':
            W.result(law.get_ultimate_strain(yielding=bool(r.integers(2))), what)
        elif what == 'init':
            o = InitialStrain(law, gen.uni(r, -1e-3, 1e-3), bool(r.integers(2)))
            W.law(o) if r.integers(2) else law_state(o, law_grid(o))
        elif what == 'parallel':
            other = build.law(gen.law_any(r))
            W.law(other)
            ls = gen.pick(r, [list, tuple])([law, other, law])
            ws = gen.pick(r, [[1.0, 2.0, 0.5], (1, 2, 3), np.array([0.2, 0.3, 0.5]), None])
            b = (freeze(ls), freeze(ws))
            o = ctx.call('Parallel', Parallel, ls, ws)
            law_state(o, law_grid(o))
            kind, x = strains(r, o)
            bx = freeze(x)
            ctx.attempt('stress', o.get_stress, x)
            ctx.attempt('tangent', o.get_tangent, x)
            same_arg(ctx, 'Parallel', x, bx, law=sp, kind=kind)
            ctx.check('argument', (freeze(ls), freeze(ws)) == b, key='argument:Parallel', law=sp)
            ctx.sig('parallel', sp['kind'], type(ws).__name__)
        elif what == 'generic':
            kw = gen.pick(r, [{}, dict(initial_strain=1e-4), dict(initial_strain=2e-4, strain_compatibility=False)])
            m = GenericMaterial(density=2000, constitutive_law=law, **kw)
            W.material(m)
        else:
            x, y = np.array([0.001, 0.002, 0.01]), np.array([100.0, 150, 120])
            flag = int(r.integers(3))
            cont = gen.pick(r, ['array', 'list', 'ro'])
            xs, ys = (x, y) if cont != 'list' else (x.tolist(), y.tolist())
            if flag == 0:
                xs, ys = (np.r_[-x[::-1], 0, x], np.r_[-y[::-1], 0, y])
            if cont == 'ro' and isinstance(xs, np.ndarray):
                xs.setflags(write=False)
                ys.setflags(write=False)
            if flag == 1 and cont == 'list':
                xs, ys = [0.0, *xs], [0.0, *ys]
            b = (freeze(xs), freeze(ys))
            o, e = ctx.attempt('UserDefined', UserDefined, xs, ys, flag=flag)
            if e is None:
                law_state(o, law_grid(o))
                W.law(o)
            ctx.check('argument', (freeze(xs), freeze(ys)) == b, key='argument:UserDefined', flag=flag, cont=cont)
            ctx.sig('user', flag, cont)
        W.verify(what, law=sp)


@M.family(360, 3000)
def materials(ctx):
    """Materials shared between objects and queried in any order."""
    r = ctx.rng
    W = Watch(ctx)
    mats = [W.material(gen.pick(r, [code_material, lambda q: build.material(dict(law=gen.law_any(q)))])(r)) for _ in range(3)]
    for _ in range(5):
        m = gen.pick(r, mats)
        what = gen.pick(r, ['from_material', 'law', 'geometry', 'reuse-law', 'attributes', 'elastic', 'section'])
        if what == 'from_material':
            o, e = ctx.attempt('from_material', ElasticMaterial.from_material, m)
            if e is None:
                W.material(o)
        elif what == 'law':
            x = strains(r, m.constitutive_law)[1]
            b = freeze(x)
            ctx.attempt('stress', m.constitutive_law.get_stress, x)
            same_arg(ctx, 'material-law', x, b)
        elif what == 'geometry':
            g = SurfaceGeometry(Polygon([(0, 0), (100, 0), (100, 200), (0, 200)]), m)
            ctx.call('from_geometry', SurfaceGeometry.from_geometry, g, new_material=gen.pick(r, mats))
        elif what == 'reuse-law':
            law = m.constitutive_law
            kind = gen.pick(r, ['generic', 'concrete', 'steel'])
            kw = gen.pick(r, [{}, dict(initial_strain=1e-4)])
            if kind == 'generic':
                W.material(GenericMaterial(density=1000, constitutive_law=law, **kw))
            elif kind == 'concrete':
                _, e = ctx.attempt('create_concrete', create_concrete, 30, constitutive_law=law, design_code='ec2_2004', **kw)
            else:
                _, e = ctx.attempt('create_reinforcement', create_reinforcement, fyk=500, Es=200000, ftk=550, epsuk=0.05,
                                   constitutive_law=law, design_code='ec2_2004', **kw)
        elif what == 'attributes':
            names = [k for k in dir(type(m)) if not k.startswith('_')]
            for i in r.permutation(len(names)):
                v, e = ctx.attempt('attribute', getattr, m, names[int(i)])
                if callable(v) and names[int(i)] in ('fcd', 'fyd', 'eps_ud', 'epsyd', 'epsud'):
                    ctx.attempt('method', v)
        elif what == 'elastic':
            W.material(ElasticPlasticMaterial(E=2e5, fy=400, density=7850, Eh=100, eps_su=0.05,
                                              **gen.pick(r, [{}, dict(initial_stress=100.0)])))
        else:
            g = SurfaceGeometry(Polygon([(0, 0), (100, 0), (100, 200), (0, 200)]), m)
            g2 = SurfaceGeometry(Polygon([(100, 0), (200, 0), (200, 200), (100, 200)]), gen.pick(r, mats))
            s = GenericSection(CompoundGeometry([g, g2]))
            ctx.attempt('gross', lambda: s.gross_properties)
            ctx.attempt('stress', s.section_calculator.integrate_strain_profile, [1e-4, 1e-6, 0])
        ctx.sig('material', type(m).__name__, what)
        W.verify(what)


@M.family(750, 6000)
def geometries(ctx):
    """Geometry operations return new objects."""
    r = ctx.rng
    W = Watch(ctx)
    pool = [W.geometry(gen.pick(r, [lambda q: c16.surface(q)[1], c16.compound, c16.compound, c16.point])(r)) for _ in range(3)]
    mats = [W.material(c16.material(r)) for _ in range(2)]
    for _ in range(7):
        g = gen.pick(r, pool)
        pt, comp = isinstance(g, PointGeometry), isinstance(g, CompoundGeometry)
        what = gen.pick(r, ['translate', 'rotate', 'mirror', 'add', 'sub', 'from_geometry', 'split', 'split2', 'bar', 'line',
                            'circle', 'compound', 'extents', 'section', 'svg'])
        args, out = (), None
        if what == 'translate':
            args = (gen.uni(r, -100, 100), int(r.integers(-50, 50)))
            out, e = ctx.attempt(what, g.translate, *args)
        elif what == 'rotate':
            kw = gen.pick(r, [{}, dict(use_radians=False), dict(point=(10.0, -20.0))])
            args = (gen.uni(r, -4, 4), kw)
            out, e = ctx.attempt(what, g.rotate, args[0], **kw)
        elif what == 'mirror':
            args = (LineString([(gen.uni(r, -100, 100), 0), (3, gen.uni(r, 1, 9))]),)
            b = freeze(args)
            out, e = ctx.attempt(what, g.mirror, *args)
            same_arg(ctx, what, args, b)
        elif what == 'add':
            out, e = ctx.attempt(what, lambda: g + gen.pick(r, pool))
        elif what == 'sub':
            if pt:
                continue
            o = gen.pick(r, pool)
            out, e = ctx.attempt(what, lambda: g - o)
        elif what == 'from_geometry':
            cls = PointGeometry if pt else CompoundGeometry if comp else SurfaceGeometry
            m = gen.pick(r, [None, *mats])
            out, e = ctx.attempt(what, cls.from_geometry, g, m)
        elif what in ('split', 'split2'):
            if pt or comp:
                continue
            x0, x1, y0, y1 = g.calculate_extents()
            c = [(x0 + x1) / 2, (y0 + y1) / 2]
            if what == 'split':
                args = gen.pick(r, [((c, gen.uni(r, 0, 3)),), ((tuple(c), 0.3),),
                                    ([np.array(c), 1.0],), (LineString([(x0 - 1, c[1]), (x1 + 1, c[1] + 3)]),)])
                b = freeze(args)
                _, e = ctx.attempt(what, g.split, *args)
            else:
                ls = (LineString([(x0 - 1, c[1]), (x1 + 1, c[1])]), LineString([(x0 - 1, y1), (x1 + 1, y1)]))
                args = gen.pick(r, [(ls,), (MultiLineString(list(ls)),)])
                b = freeze(args)
                _, e = ctx.attempt(what, g.split_two_lines, *args)
            same_arg(ctx, what, args, b)
        elif what in ('bar', 'line', 'circle'):
            if pt:
                continue
            p = gen.pick(r, [list, tuple, np.array])([gen.uni(r, -50, 50), gen.uni(r, -50, 50)])
            q = gen.pick(r, [list, tuple, np.array])([gen.uni(r, 60, 150), gen.uni(r, -50, 50)])
            b = freeze((p, q))
            if what == 'bar':
                out, e = ctx.attempt(what, add_reinforcement, g, p, 12, mats[0], group_label=gen.pick(r, [None, 'x']))
            elif what == 'line':
                kw = gen.pick(r, [dict(n=3), dict(s=30.0), dict(n=4, first=False), dict(n=2, s=1e6)])
                out, e = ctx.attempt(what, add_reinforcement_line, g, p, q, 12, mats[0], **kw)
            else:
                out, e = ctx.attempt(what, add_reinforcement_circle, g, p, 80.0, 12, mats[1], **gen.pick(r, [dict(n=5), dict(s=60.0)]))
            same_arg(ctx, what, (p, q), b)
        elif what == 'compound':
            lst = list(pool)
            b = freeze(lst)
            out, e = ctx.attempt(what, CompoundGeometry, lst)
            same_arg(ctx, what, lst, b)
        elif what == 'extents':
            if not pt:
                ctx.attempt(what, g.calculate_extents)
        elif what == 'svg':
            ctx.attempt(what, g._repr_svg_)
        elif what == 'section':
            if pt or (comp and not g.geometries):
                continue
            s, e = ctx.attempt(what, GenericSection, g, integrator=gen.pick(r, ['marin', 'fiber']))
            if e is None:
                ctx.attempt('gross', lambda: s.gross_properties)
        if out is not None:
            ctx.check('geometry', out is not g or what in ('compound', 'sub'), key='same-object:' + what)
            if len(pool) < 7:
                parts = out.geometries if isinstance(out, CompoundGeometry) else [] if isinstance(out, PointGeometry) else [out]
                ok = all(q.area > 1e-6 for q in parts)
                if ok and not (isinstance(out, CompoundGeometry) and len(out.geometries) > 12):
                    pool.append(W.geometry(out))
        ctx.sig('geometry', type(g).__name__, what, [type(a).__name__ for a in args])
        W.verify(what)


def arrayed(r, op):
    """Turn the strain of an operation to an array or tuple now and then."""
    if op[0] in ('stress', 'modulus') and isinstance(op[1], list) and len(op) == 2:
        x = gen.pick(r, [list(op[1]), np.array(op[1]), tuple(op[1]), np.repeat(np.array(op[1]), 2)[::2]])
        if isinstance(x, np.ndarray) and x.flags.owndata and r.integers(2):
            x.setflags(write=False)
        return (op[0], x)
    if op[0] == 'mc' and 'chi' in op[1]:
        kw = dict(op[1])
        if all(isinstance(v, float) for v in kw['chi']):
            kw['chi'] = gen.pick(r, [list, tuple, np.array])(kw['chi'])
            if isinstance(kw['chi'], np.ndarray) and r.integers(2):
                kw['chi'].setflags(write=False)
        return (op[0], kw)
    return op


def odd_strain(r):
    """A strain plane with zeros, signed zeros and values next to nothing."""
    tiny = [0.0, -0.0, 1e-17, -1e-16, 1e-15, -1e-14, 3e-13, 1e-11, -1e-9]
    w = r.random(3) < 0.6
    v = [gen.uni(r, -3e-3, 3e-3), gen.uni(r, -2e-5, 2e-5), gen.uni(r, -2e-5, 2e-5)]
    return [gen.pick(r, tiny) if q else p for p, q in zip(v, w)]


@M.family(450, 3500, timeout=200)
def sections(ctx):
    """Analyses leave sections, geometries, materials and arguments alone."""
    r = ctx.rng
    W = Watch(ctx)
    spec = gen.mixed_section(r) if r.integers(4) == 0 else case(r, False)[1]
    spec.setdefault('size', float(np.max(np.ptp(gen.all_xy(spec), axis=0))))
    geo = W.geometry(build.geometry(spec))
    secs = [W.section(GenericSection(geo, integrator=k, **kw)) for k, kw in
            (('marin', {}), ('fiber', dict(mesh_size=gen.pick(r, [0.02, 0.2]))))]
    v, e = ctx.attempt('limits', secs[0].section_calculator.calculate_limit_axial_load)
    lo, hi = (float(v[0]), float(v[1])) if e is None else (-1e6, 1e6)
    if not lo < hi:
        lo, hi = -1e6, 1e6
    for _ in range(4):
        s = gen.pick(r, secs)
        op = arrayed(r, an_op(r, spec, lo, hi))
        b = freeze(op[1:])
        ro = any(isinstance(x, np.ndarray) and not x.flags.writeable for x in
                 [*op[1:], *(op[1].values() if len(op) > 1 and isinstance(op[1], dict) else ())])
        got = outcome(s, op)
        if got[0] == 'exc' and ro:
            ctx.check('argument', 'read-only' not in got[2], key='writes-argument:' + op[0], msg=got[2], spec=spec, op=op)
        same_arg(ctx, op[0], op[1:], b, spec=spec, op=op)
        # raw results stay as handed out
        if op[0] == 'modulus':
            x, e = ctx.attempt('modulus', s.section_calculator.integrate_strain_profile, op[1], 'modulus')
            if e is None:
                W.result(x, 'modulus')
        if op[0] in ('strength', 'mc', 'nm') and got[0] == 'ok':
            W.result(got[1], op[0])
            c = s.section_calculator
            if op[0] == 'nm':
                res, e = ctx.attempt('nm', c.calculate_nm_interaction_domain, **op[1])
                if e is None:
                    W.result([res.forces, res.strains], 'nm')
            if op[0] == 'mc':
                res, e = ctx.attempt('mc', c.calculate_moment_curvature, **op[1])
                if e is None:
                    W.result([res.m_y, res.m_z, res.chi_y, res.chi_z, res.eps_axial], 'mc')
        if op[0] == 'cracked' and any(q['concrete'] for q in spec['surfs']) and isinstance(op[1], float):
            x, e = ctx.attempt('cracked', calculate_elastic_cracked_properties, s, op[1], True)
            if e is None and x is not None:
                ctx.check('geometry', x[1] is not geo, key='same-object:cracked')
        if r.integers(3) == 0:
            gp, e = ctx.attempt('gross', lambda: s.gross_properties)
            if e is None:
                W.result(gp.__dict__, 'gross')
        ctx.sig('section', desc(spec), op[0], type(op[1]).__name__ if len(op) > 1 else '')
        W.verify(op[0], spec=spec, op=op)
    for _ in range(10):
        # only the argument is watched: cheap calls
        s = gen.pick(r, secs)
        op = arrayed(r, (gen.pick(r, ['stress', 'modulus']), odd_strain(r)))
        b = freeze(op[1:])
        c = s.section_calculator
        x, e = ctx.attempt(op[0], c.integrate_strain_profile, op[1], op[0])
        if e is not None and isinstance(op[1], np.ndarray) and not op[1].flags.writeable:
            ctx.check('argument', 'read-only' not in str(e), key='writes-argument:' + op[0], msg=str(e), spec=spec, op=op)
        same_arg(ctx, op[0], op[1:], b, spec=spec, op=op)
    W.verify('strains', spec=spec)


def times(r):
    x = np.sort(gen.logu(r, 1, 50) * np.cumsum(r.uniform(1, 100, int(r.integers(1, 6)))))
    k = gen.pick(r, ['f8', 'ro', 'strided', 'list', 'int'])
    if k == 'ro':
        x.setflags(write=False)
    elif k == 'strided':
        x = np.repeat(x, 2)[::2]
    elif k == 'list':
        x = x.tolist()
    elif k == 'int':
        x = np.ceil(x).astype(int)
    return k, x


TIMES = {
    'ec2_2004.beta_cc': lambda x: ec2_2004.beta_cc(x, 0.25),
    'ec2_2004.beta_ct': lambda x: ec2_2004.beta_ct(x, 0.25),
    'ec2_2004.beta_E': lambda x: ec2_2004.beta_E(x, 0.25),
    'ec2_2004.fcm_time': lambda x: ec2_2004.fcm_time(38.0, x),
    'ec2_2004.Ecm_time': lambda x: ec2_2004.Ecm_time(38.0, x, 33000.0),
    'ec2_2004.beta_ds': lambda x: ec2_2004.beta_ds(x, 1.0, 200.0),
    'ec2_2004.beta_as': lambda x: ec2_2004.beta_as(x),
    'ec2_2004.beta_c': lambda x: ec2_2004.beta_c(1.0, x, 800.0),
    'ec2_2004.phi': lambda x: ec2_2004.phi(2.0, x),
    'ec2_2004.eps_cs': lambda x: ec2_2004.eps_cs(x, x),
    'mc2010.beta_cc': lambda x: mc2010.beta_cc(x, 38.0, '42.5 N'),
    'mc2010.beta_e': lambda x: mc2010.beta_e(x),
    'mc2010.Eci_t': lambda x: mc2010.Eci_t(x, 30000.0),
    'mc2010.beta_ds': lambda x: mc2010.beta_ds(x, 1.0, 200.0),
    'mc2010.beta_bs': lambda x: mc2010.beta_bs(x),
    'mc2010.beta_bc_t': lambda x: mc2010.beta_bc_t(x, 1.0, 1.2),
    'mc2010.beta_dc_t': lambda x: mc2010.beta_dc_t(x, 1.0, 400.0, 0.4),
    'mc2010.phi': lambda x: mc2010.phi(x, x),
    'mc2010.t_T': lambda x: mc2010.t_T(1.0, x, x),
    'ec2_2004.t_T': lambda x: ec2_2004.t_T(x, x),
}


@M.family(600, 4000)
def code_functions(ctx):
    """Functions of time leave their arguments alone."""
    r = ctx.rng
    for _ in range(4):
        name = gen.pick(r, sorted(TIMES))
        k, x = times(r)
        b = freeze(x)
        v, e = ctx.attempt(name, TIMES[name], x)
        same_arg(ctx, name, x, b, kind=k)
        if e is not None and k == 'ro':
            ctx.check('argument', 'read-only' not in str(e), key='writes-argument:' + name, msg=repr(e))
        if e is None and isinstance(v, np.ndarray):
            f = freeze(v)
            ctx.attempt(name, TIMES[name], x)
            ctx.check('earlier-result', freeze(v) == f, key='earlier-result:' + name)
        ctx.sig('code', name, k)
