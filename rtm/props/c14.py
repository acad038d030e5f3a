"""C14: gross section properties are exact integrals."""
import copy
import dataclasses
import math
import warnings

import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import desc, unit_size

M = Module(
    'C14',
    'random sections (holes, non-convex, disjoint and touching parts, bars) '
    'of random laws and densities, mm and m, anywhere in the plane, both '
    'integrators; oracle: Green moments of the plain rings and closed forms; '
    'non-trivial = distinct (shapes, laws, holes, bars, integrator, mesh)',
    required={'mon:area': 300, 'mon:moments': 300, 'mon:emoments': 300,
              'mon:centroid': 300, 'mon:centroidal': 300, 'mon:principal': 300,
              'mon:angle': 300, 'mon:perimeter': 100, 'mon:mass': 300, 'mon:printed': 300, 'mon:isclose': 300},
)


def weighted(spec, w):
    """(A, y, z, yy, yz, zz) of surfaces and points with weights per material."""
    tot = np.zeros(6)
    mag = np.zeros(6)
    for s in spec['surfs']:
        m = ref.poly_moments(s)
        v = np.array([m[k] for k in ('A', 'y', 'z', 'yy', 'yz', 'zz')]) * w[s['mat']]
        a = np.abs(np.array(s['ext'])).max(axis=0)
        A = abs(ref.signed_area(s['ext']))
        tot += v
        mag += A * abs(w[s['mat']]) * np.array([1, a[0], a[1], a[0] ** 2, a[0] * a[1], a[1] ** 2])
    for p in spec['points']:
        v = math.pi * p['d'] ** 2 / 4 * w[p['mat']] * np.array(
            [1, p['y'], p['z'], p['y'] ** 2, p['y'] * p['z'], p['z'] ** 2])
        tot += v
        mag += np.abs(v)
    return tot, mag


def expected(spec, E):
    u, um = weighted(spec, [1.0] * len(E))
    e, em = weighted(spec, E)
    return u, um, e, em


def central(v, c):
    cy, cz = c
    A, y, z, yy, yz, zz = v
    return np.array([yy - 2 * cy * y + cy * cy * A,
                     yz - cy * z - cz * y + cy * cz * A,
                     zz - 2 * cz * z + cz * cz * A])


def compare(ctx, gp, spec, E, integrator, mesh, what=''):
    u, um, e, em = expected(spec, E)
    As = sum(ref.poly_moments(s)['A'] for s in spec['surfs'])
    Ap = sum(math.pi * p['d'] ** 2 / 4 for p in spec['points'])
    w = dict(spec=spec, integrator=integrator, mesh=mesh)
    ctx.close('area', [gp.area, gp.area_reinforcement], [As, Ap], 1e-10, 1e-10 * um[0], key='area' + what, **w)
    ctx.close('area', gp.ea, e[0], 1e-10, 1e-10 * em[0], key='ea' + what, **w)
    mass = sum(ref.poly_moments(s)['A'] * spec['mats'][s['mat']]['density'] for s in spec['surfs'])
    mass += sum(math.pi * p['d'] ** 2 / 4 * spec['mats'][p['mat']]['density'] for p in spec['points'])
    ctx.close('mass', gp.mass, mass * 1e-9, 1e-10, key='mass' + what, **w)
    # second moments by fibres: the own moment of the fibres is missing
    q2 = np.zeros(3)
    q2e = np.zeros(3)
    if integrator == 'fiber':
        for s in spec['surfs']:
            A = ref.poly_moments(s)['A']
            q2 += 2 * mesh * A * A
            q2e += 2 * mesh * A * A * E[s['mat']]
    names = ('sz', 'sy')
    ctx.close('moments', [gp.sz, gp.sy], u[1:3], 0, 1e-9 * um[1:3], key='first' + what, msg=str(names), **w)
    ctx.close('moments', [gp.izz, gp.iyz, gp.iyy], u[3:], 0, 1e-9 * um[3:] + q2, key='second' + what, **w)
    ctx.close('emoments', [gp.e_sz, gp.e_sy], e[1:3], 0, 1e-9 * em[1:3], key='efirst' + what, **w)
    ctx.close('emoments', [gp.e_izz, gp.e_iyz, gp.e_iyy], e[3:], 0, 1e-9 * em[3:] + q2e, key='esecond' + what, **w)
    c = e[1:3] / e[0]
    ctx.close('centroid', [gp.cy, gp.cz], c, 0, 2e-9 * em[1:3] / abs(e[0]) + 1e-10 * np.abs(c) * em[0] / abs(e[0]), key='centroid' + what, **w)
    uc, ec = central(u, c), central(e, c)
    m2 = np.array([um[3] + c[0] ** 2 * um[0], um[4] + abs(c[0] * c[1]) * um[0], um[5] + c[1] ** 2 * um[0]])
    m2e = np.array([em[3] + c[0] ** 2 * em[0], em[4] + abs(c[0] * c[1]) * em[0], em[5] + c[1] ** 2 * em[0]])
    ctx.close('centroidal', [gp.izz_c, gp.iyz_c, gp.iyy_c], uc, 0, 1e-8 * m2 + q2, key='centroidal' + what, **w)
    ctx.close('centroidal', [gp.e_izz_c, gp.e_iyz_c, gp.e_iyy_c], ec, 0, 1e-8 * m2e + q2e, key='ecentroidal' + what, **w)
    if integrator == 'fiber':
        # missing own moments make the fibre values smaller, never larger
        ctx.check('fiber_bound', gp.izz <= u[3] + 1e-9 * um[3] and gp.iyy <= u[5] + 1e-9 * um[5],
                  msg='fibre second moments larger than exact', **w)
    for k, v in vars(gp).items():
        ctx.check('real', np.ndim(v) == 0 and isinstance(v, (int, float, np.integer, np.floating)), 'real ' + k,
                  'not a real number', value=repr(v))
    for pre in ('', 'e_'):
        izz, iyz, iyy = (float(getattr(gp, pre + k)) for k in ('izz_c', 'iyz_c', 'iyy_c'))
        i1, i2, th = (float(getattr(gp, pre + k)) for k in ('i11', 'i22', 'theta'))
        sc = abs(izz) + abs(iyy)
        h = 0.5 * (iyy + izz)
        d = math.hypot(0.5 * (iyy - izz), iyz)
        ctx.close('principal', [i1, i2], [h + d, h - d], 0, 1e-9 * sc, key=pre + 'principal' + what, **w)
        along = iyy * math.cos(th) ** 2 + izz * math.sin(th) ** 2 - 2 * iyz * math.sin(th) * math.cos(th)
        across = iyy * math.sin(th) ** 2 + izz * math.cos(th) ** 2 + 2 * iyz * math.sin(th) * math.cos(th)
        ctx.close('angle', [along, across], [i1, i2], 0, 1e-7 * sc, key=pre + 'angle' + what,
                  msg=f'moment about the axis at theta={th} (iyy {iyy} izz {izz} iyz {iyz})', **w)


def perimeter(ring):
    a = np.asarray(ring, float)
    return float(np.sum(np.hypot(*(np.roll(a, -1, axis=0) - a).T)))


def tangents(spec, mats):
    return [float(np.asarray(m.constitutive_law.get_tangent(eps=0)).item()) for m in mats]


def report(ctx, gp):
    """Printed values and comparison of results."""
    r = ctx.rng
    vals = [getattr(gp, f.name) for f in dataclasses.fields(gp)]
    for spec, text in (('', ctx.call('str', str, gp)), (sp := gen.pick(r, ['.3f', '.6e', '.4g']), ctx.call('format', format, gp, sp))):
        got = sorted(line.rsplit(':', 1)[1].strip() for line in text.splitlines() if line.rsplit(':', 1)[-1].strip())
        exp = sorted(format(v, spec).strip() for v in vals)
        ctx.check('printed', got == exp, key='printed' + spec[:1], msg=f'{got} instead of {exp}')
    ctx.check('isclose', gp.isclose(copy.copy(gp)) == True, key='isclose:copy', msg='a copy is not close')  # noqa: E712
    for k in [f.name for f in dataclasses.fields(gp)]:
        v = getattr(gp, k)
        tol = gen.logu(r, 1e-9, 1e-2)
        for f, near in ((1 + 0.5 * tol, True), (1 + 2 * tol, False)):
            if v == 0 or not math.isfinite(v):
                continue
            o = copy.copy(gp)
            setattr(o, k, v * f)
            for a, b in ((gp, o), (o, gp)):
                ctx.check('isclose', bool(a.isclose(b, rtol=tol, atol=0.0)) == near, key=f'isclose:{near}',
                          msg=f'{k} {v} and {v * f}, rtol {tol}')


def props_of(ctx, sec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ctx.call('gross_properties', lambda: sec.gross_properties)


@M.family(3600, 30000)
def sections(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, size=unit_size(r))
    mats = [build.material(m) for m in spec['mats']]
    E = tangents(spec, mats)
    used = [E[s['mat']] for s in spec['surfs']] + [E[p['mat']] for p in spec['points']]
    if not all(math.isfinite(v) and v > 0 for v in used):
        ctx.ev('skip_stiffness')
        return
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    mesh = gen.pick(r, [0.01, 0.05, 0.003]) if integrator == 'fiber' else 0.01
    kw = dict(mesh_size=mesh) if integrator == 'fiber' else {}
    sec = build.GenericSection(build.geometry(spec, mats, force_compound=bool(r.integers(2))),
                               integrator=integrator, **kw)
    gp = props_of(ctx, sec)
    compare(ctx, gp, spec, E, integrator, mesh)
    if len(spec['surfs']) == 1:
        ctx.close('perimeter', gp.perimeter, perimeter(spec['surfs'][0]['ext']), 1e-9, key='perimeter', spec=spec)
    ctx.check('cached', props_of(ctx, sec) is gp or props_of(ctx, sec).isclose(gp, 1e-12), msg='second query differs')
    report(ctx, gp)
    ctx.sig(desc(spec), integrator, mesh)
    ctx.note(desc=desc(spec))


@M.family(900, 6000)
def touching(ctx):
    """A rectangle made of touching layers/columns of different materials."""
    r = ctx.rng
    b, h = gen.logu(r, 0.1, 1500), 0
    b, h = b, b * gen.uni(r, 0.2, 4)
    n = int(r.integers(2, 5))
    cuts = np.concatenate(([0], np.sort(r.uniform(0.05, 0.95, n - 1)), [1])) * h - h / 2
    nm = int(r.integers(1, n + 1))
    mats = [dict(law=dict(kind='elastic', E=gen.logu(r, 10, 2e5)), density=gen.uni(r, 500, 8000)) for _ in range(nm)]
    swap = bool(r.integers(2))
    ang, dy, dz = gen.pick(r, [0.0, math.pi / 2, gen.uni(r, -3, 3)]), gen.uni(r, -2, 2) * b, gen.uni(r, -2, 2) * b
    surfs = []
    for k in range(n):
        ring = [(-b / 2, cuts[k]), (b / 2, cuts[k]), (b / 2, cuts[k + 1]), (-b / 2, cuts[k + 1])]
        if swap:
            ring = [(z, y) for y, z in ring][::-1]
        surfs.append(dict(ext=gen.xform([ring], ang, dy, dz)[0], holes=[], mat=int(r.integers(nm)), shape='layer'))
    pts = [dict(y=dy + gen.uni(r, -.3, .3) * b, z=dz + gen.uni(r, -.3, .3) * h, d=0.02 * b, mat=int(r.integers(nm)))
           for _ in range(int(r.integers(0, 4)))]
    spec = dict(surfs=surfs, points=pts, mats=mats, size=b)
    order = r.permutation(n)
    spec['surfs'] = [surfs[k] for k in order]
    integrator = gen.pick(r, ['marin', 'fiber'])
    sec = build.section(spec, integrator)
    gp = props_of(ctx, sec)
    E = [m['law']['E'] for m in mats]
    compare(ctx, gp, spec, E, integrator, 0.01, ':touching')
    if ang in (0.0, math.pi / 2) and ang == 0.0:
        ctx.close('perimeter', gp.perimeter, 2 * (b + h), 1e-9, key='perimeter:touching', spec=spec)
    ctx.sig('touch', n, nm, integrator, round(ang, 2), swap)


@M.family(600, 4000)
def closed_forms(ctx):
    """Rectangles, rectangular tubes and right triangles: textbook values."""
    r = ctx.rng
    b, h = gen.logu(r, 0.1, 2000), gen.logu(r, 0.1, 2000)
    E, rho = gen.logu(r, 1, 3e5), gen.uni(r, 100, 9000)
    kind = gen.pick(r, ['rect', 'tube', 'tri'])
    holes = []
    if kind == 'rect':
        ring = gen.rect(b, h)
        v = (b * h, 0, 0, b * h ** 3 / 12, h * b ** 3 / 12, 0.0)
    elif kind == 'tube':
        bi, hi = b * gen.uni(r, .2, .9), h * gen.uni(r, .2, .9)
        ring, holes = gen.rect(b, h), [gen.rect(bi, hi)]
        v = (b * h - bi * hi, 0, 0, (b * h ** 3 - bi * hi ** 3) / 12, (h * b ** 3 - hi * bi ** 3) / 12, 0.0)
    else:
        ring = [(0, 0), (b, 0), (0, h)]
        v = (b * h / 2, b / 3, h / 3, b * h ** 3 / 36, h * b ** 3 / 36, -b * b * h * h / 72)
    A, cy, cz, iyy, izz, iyz = v
    dy, dz = gen.uni(r, -2, 2) * b, gen.uni(r, -2, 2) * h
    rings = gen.xform([ring, *holes], 0, dy, dz)
    spec = dict(surfs=[dict(ext=rings[0], holes=rings[1:], mat=0, shape=kind)], points=[],
                mats=[dict(law=dict(kind='elastic', E=E), density=rho)])
    gp = props_of(ctx, build.section(spec, 'marin'))
    cy, cz = cy + dy, cz + dz
    ctx.close('textbook', [gp.area, gp.cy, gp.cz, gp.ea, gp.mass], [A, cy, cz, E * A, A * rho * 1e-9], 1e-8, 1e-8 * max(b, h),
              key='textbook1', spec=spec)
    s = A * max(b, h) ** 2
    ctx.close('textbook', [gp.iyy_c, gp.izz_c, gp.iyz_c], [iyy, izz, iyz], 1e-8, 1e-9 * s, key='textbook2', spec=spec)
    ctx.close('textbook', [gp.sy, gp.sz], [A * cz, A * cy], 1e-8, 1e-9 * A * max(b, h), key='textbook3', spec=spec)
    ctx.close('textbook', [gp.e_iyy_c, gp.e_izz_c, gp.e_iyz_c], [E * iyy, E * izz, E * iyz], 1e-8, 1e-9 * s * E, key='textbook4', spec=spec)
    ctx.sig(kind, b > h)
