"""C15: cracked elastic properties."""
import math
import warnings

import numpy as np

from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry
from structuralcodes.materials.concrete import create_concrete
from structuralcodes.materials.reinforcement import create_reinforcement
from structuralcodes.sections import calculate_elastic_cracked_properties

from .. import build, gen, geo, ref
from ..core import Module
from .c14 import central, tangents, weighted
from .c02 import desc

M = Module(
    'C15',
    'random reinforced concrete sections (one or two concretes, hollow, '
    'non-convex, steel plates, bars of several steels) x theta x integrator x '
    'mesh size; oracle: neutral axis of the no-tension transformed section '
    'found by bisection on Green integrals, moments of the compressed part; '
    'non-trivial = distinct (shapes, concrete/steel parts, theta, integrator)',
    required={'mon:area': 150, 'mon:geometry': 150, 'mon:props': 150,
              'mon:equilibrium': 150, 'mon:none': 20, 'mon:consistent': 150},
)


def rc(r):
    spec = gen.rc_section(r, poly_only=True, composite=bool(r.integers(2)))
    if r.integers(4) == 0:  # a concrete with some strength in tension
        E, k = gen.uni(r, 8e3, 5e4), gen.uni(r, 0.2, 3)
        x = [-gen.uni(r, 0.003, 0.006), -gen.uni(r, 5e-4, 2e-3), 0.0, gen.uni(r, 5e-5, 2e-4), gen.uni(r, 3e-4, 3e-3)]
        y = [x[1] * E * gen.uni(r, 0.9, 1.2), x[1] * E, 0.0, x[3] * E * k, 0.0]
        spec['mats'][0]['law'] = dict(kind='user', x=x, y=y, flag=0)
    if r.integers(3) == 0:
        # a second concrete: a slab beside the section
        xy = gen.all_xy(spec)
        hi, lo = xy.max(axis=0), xy.min(axis=0)
        w, t = (hi[0] - lo[0]) * gen.uni(r, 0.5, 1.5), (hi[1] - lo[1]) * gen.uni(r, .05, .3)
        spec['mats'].append(dict(law=gen.law_conc(r, poly_only=True), density=2400.0))
        spec['surfs'].append(dict(ext=gen.rect(w, t, (hi[0] + lo[0]) / 2, hi[1] + t / 2), holes=[],
                                  mat=len(spec['mats']) - 1, concrete=True, shape='slab'))
    return spec


def neutral_axis(spec, E, theta):
    """Offset along z* of the neutral axis, and what determines its accuracy."""
    u = np.array([-math.sin(theta), math.cos(theta)])

    def force(z0):
        f = 0.0
        g = 0.0
        for s in spec['surfs']:
            if s['concrete']:
                law = geo.band_law(0.0, math.inf)
                K, _ = ref.section_integral([(s, law)], [], (-z0, float(u[1]), -float(u[0])), 'modulus')
                a, y, z = K[0, 0], -K[0, 2], K[0, 1]
            else:
                m = ref.poly_moments(s)
                a, y, z = m['A'], m['y'], m['z']
            f += E[s['mat']] * (u[0] * y + u[1] * z - z0 * a)
            g += E[s['mat']] * a
        for p in spec['points']:
            a = math.pi * p['d'] ** 2 / 4 * E[p['mat']]
            f += a * (u[0] * p['y'] + u[1] * p['z'] - z0)
            g += a
        return f, g

    q = gen.all_xy(spec) @ u
    lo, hi = q.min() - 1, q.max() + 1
    flo, fhi = force(lo)[0], force(hi)[0]
    if not (flo > 0 > fhi):
        return None
    for _ in range(70):
        mid = 0.5 * (lo + hi)
        if force(mid)[0] > 0:
            lo = mid
        else:
            hi = mid
    z0 = 0.5 * (lo + hi)
    return u, z0, force(z0)[1], (q.min(), q.max())


def expected(spec, E, u, z0):
    """Weighted (A,y,z,yy,yz,zz): geometric and elastic, of the cracked section."""
    tot = np.zeros((2, 6))
    for s in spec['surfs']:
        if s['concrete']:
            m, _ = geo.moments([s], u, z0, 0.0, math.inf)
            v = np.array(m)
        else:
            k = ref.poly_moments(s)
            v = np.array([k[q] for q in ('A', 'y', 'z', 'yy', 'yz', 'zz')])
        tot += np.outer([1.0, E[s['mat']]], v)
    for p in spec['points']:
        a = math.pi * p['d'] ** 2 / 4
        v = a * np.array([1, p['y'], p['z'], p['y'] ** 2, p['y'] * p['z'], p['z'] ** 2])
        tot += np.outer([1.0, E[p['mat']]], v)
    return tot


def plain(cg):
    return [geo.surf_of(g.polygon) for g in cg.geometries]


def run(ctx, spec, mats, section, integrator, mesh, theta):
    E = tangents(spec, mats)
    if not all(math.isfinite(v) and v > 0 for v in E):
        ctx.ev('skip_stiffness')
        return
    na = neutral_axis(spec, E, theta)
    if na is None:
        ctx.ev('skip_no_axis')
        return
    u, z0, EA, (qlo, qhi) = na
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = ctx.call('cracked', calculate_elastic_cracked_properties, section, theta, True)
    w = dict(spec=spec, theta=theta, integrator=integrator, mesh=mesh)
    if not ctx.check('result', isinstance(res, tuple) and len(res) == 2, msg=repr(res), **w):
        return
    prop, cg = res
    Econc = max(E[s['mat']] for s in spec['surfs'] if s['concrete'])
    conc = [s for s in spec['surfs'] if s['concrete']]
    wid = sum(float(np.hypot(*np.ptp(np.array(s['ext']), axis=0))) for s in conc)
    dz = 2e3 / EA + 1e-8 * (qhi - qlo + abs(z0))
    if integrator == 'fiber':
        for s in conc:
            A = ref.poly_moments(s)['A']
            d = min(2.7 * math.sqrt(mesh * A), qhi - qlo)
            dz += 1.0 * d * d * wid * Econc / EA
        dz = min(dz, qhi - qlo)
    # --- geometry: whole other parts, concrete above the axis only
    got = plain(cg)
    if not got:
        got_m = np.zeros(6)
    else:
        got_m, _ = geo.moments(got)
    xy = gen.all_xy(spec)
    R = np.abs(xy).max(axis=0) + 1e-9
    rv = np.array([1, R[0], R[1], R[0] ** 2, R[0] * R[1], R[1] ** 2])
    exp_g = np.zeros(6)
    tolA = 0.0
    for s in spec['surfs']:
        if s['concrete']:
            exp_g += geo.moments([s], u, z0, 0.0, math.inf)[0]
            up = geo.moments([s], u, z0 - dz, 0.0, math.inf)[0][0]
            dn = geo.moments([s], u, z0 + dz, 0.0, math.inf)[0][0]
            tolA += abs(up - dn)
        else:
            k = ref.poly_moments(s)
            exp_g += np.array([k[q] for q in ('A', 'y', 'z', 'yy', 'yz', 'zz')])
    A0 = sum(ref.poly_moments(s)['A'] for s in spec['surfs'])
    tol = (tolA + 1e-8 * A0) * rv
    ctx.close('geometry', got_m, exp_g, 0, tol, key='cracked-geometry', msg=f'z_na={z0}', **w)
    # bars are all there
    pb = sorted((round(float(p._point.x), 4), round(float(p._point.y), 4), round(float(p.area), 3)) for p in cg.point_geometries)
    pe = sorted((round(p['y'], 4), round(p['z'], 4), round(math.pi * p['d'] ** 2 / 4, 3)) for p in spec['points'])
    ctx.check('bars', len(pb) == len(pe) and np.allclose(pb, pe, rtol=0, atol=2e-3), key='cracked-bars', msg=f'{pb} {pe}', **w)
    # --- properties
    tot = expected(spec, E, u, z0)
    pa = prop.area
    ctx.close('area', pa, exp_g[0], 0, tol[0], key='area', msg=f'z_na={z0}', **w)
    Ap = sum(math.pi * p['d'] ** 2 / 4 for p in spec['points'])
    ctx.close('area', prop.area_reinforcement, Ap, 1e-9, key='area_reinforcement', **w)
    te = (tolA * Econc + 1e-8 * tot[1][0]) * rv
    tg = tol.copy()
    ctx.close('props', prop.ea, tot[1][0], 0, te[0], key='ea', **w)
    ctx.close('props', [prop.e_sz, prop.e_sy], tot[1][1:3], 0, te[1:3], key='e_s', **w)
    ctx.close('props', [prop.sz, prop.sy], tot[0][1:3], 0, tg[1:3], key='s', **w)
    q2 = q2e = 0.0
    if integrator == 'fiber':
        for g in cg.geometries:
            q2 += 2 * mesh * g.area ** 2
            q2e += 2 * mesh * g.area ** 2 * max(E)
    ctx.close('props', [prop.e_izz, prop.e_iyz, prop.e_iyy], tot[1][3:], 0, te[3:] + q2e, key='e_i', **w)
    ctx.close('props', [prop.izz, prop.iyz, prop.iyy], tot[0][3:], 0, tg[3:] + q2, key='i', **w)
    c = tot[1][1:3] / tot[1][0]
    tc = 2 * te[1:3] / tot[1][0]
    ctx.close('props', [prop.cy, prop.cz], c, 0, tc + 1e-9 * R, key='centroid', **w)
    # the centroid of the cracked section lies on the neutral axis
    off = float(np.array([prop.cy, prop.cz]) @ u) - z0
    ctx.close('equilibrium', off, 0.0, 0, dz * (1 + tolA * Econc / tot[1][0]) + float(np.sum(tc)) + 1e-7 * np.max(R), key='centroid-on-axis', **w)
    ec = central(tot[1], c)
    rel = 4 * np.array([te[3] + q2e, te[4] + q2e, te[5] + q2e])
    ctx.close('props', [prop.e_izz_c, prop.e_iyz_c, prop.e_iyy_c], ec, 0, rel + 1e-8 * tot[1][0] * np.max(R) ** 2, key='e_ic', **w)
    # --- consistent with the returned geometry
    area = sum(g.area for g in cg.geometries)
    ea = sum(g.area * float(np.asarray(g.material.constitutive_law.get_tangent(eps=0)).item()) for g in cg.geometries)
    ea += sum(p.area * float(np.asarray(p.material.constitutive_law.get_tangent(eps=0)).item()) for p in cg.point_geometries)
    mass = sum(g.area * g.density for g in cg.geometries) + sum(p.area * p.density for p in cg.point_geometries)
    ctx.close('consistent', [prop.area, prop.ea, prop.mass], [area, ea, mass * 1e-9], 1e-8, key='consistent', **w)
    dens = [m.density for m in mats]
    me = sum(exp_gk * d for exp_gk, d in (
        ((geo.moments([s], u, z0, 0.0, math.inf)[0][0] if s['concrete'] else ref.poly_moments(s)['A']), dens[s['mat']])
        for s in spec['surfs']))
    me += sum(math.pi * p['d'] ** 2 / 4 * dens[p['mat']] for p in spec['points'])
    ctx.close('consistent', prop.mass, me * 1e-9, 1e-9, tol[0] * max(dens) * 1e-9, key='mass', **w)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p2 = ctx.call('cracked', calculate_elastic_cracked_properties, section, theta)
    ctx.close('again', [p2.area, p2.ea, p2.e_i11, p2.e_i22], [prop.area, prop.ea, prop.e_i11, prop.e_i22], 1e-9, key='again', **w)
    ctx.sig(desc(spec), [s['concrete'] for s in spec['surfs']], round(theta, 2), integrator)
    ctx.note(desc=desc(spec), theta=theta, z_na=z0)


def angle(r):
    return gen.pick(r, [0.0, 0.0, math.pi, math.pi / 2, -math.pi / 2, gen.uni(r, -3.1, 3.1), gen.uni(r, -3.1, 3.1)])


@M.family(800, 7000)
def sections(ctx):
    r = ctx.rng
    spec = rc(r)
    mats = [build.material(m) for m in spec['mats']]
    integrator = gen.pick(r, ['marin', 'marin', 'fiber'])
    mesh = gen.pick(r, [0.01, 0.004, 0.05])
    sec = build.GenericSection(build.geometry(spec, mats), integrator=integrator, mesh_size=mesh)
    run(ctx, spec, mats, sec, integrator, mesh, angle(r))


@M.family(120, 1500)
def code_materials(ctx):
    """Concrete and reinforcement of the design codes set the flags."""
    r = ctx.rng
    spec = gen.rc_section(r, poly_only=True)
    code = gen.pick(r, ['ec2_2004', 'mc2010', 'ec2_2023'])
    con = create_concrete(fck=gen.pick(r, [20, 25, 30, 45, 60, 90]), design_code=code)
    st = create_reinforcement(fyk=500, Es=200000, ftk=550, epsuk=0.05, design_code=code)
    spec['mats'] = [dict(law=None, density=con.density), *[dict(law=None, density=st.density) for _ in spec['mats'][1:]]]
    mats = [con, *[st] * (len(spec['mats']) - 1)]
    for s in spec['surfs']:
        s.pop('concrete')
    g = build.geometry(spec, mats)
    for s in spec['surfs']:
        s['concrete'] = True
    integrator = gen.pick(r, ['marin', 'fiber'])
    sec = build.GenericSection(g, integrator=integrator)
    E = tangents(spec, mats)
    na = neutral_axis(spec, E, 0.0)
    spec['mats'] = [dict(law=dict(kind='elastic', E=e), density=m['density']) for e, m in zip(E, spec['mats'])]
    if na:
        run(ctx, spec, mats, sec, integrator, 0.01, angle(r))


@M.family(120, 600)
def not_concrete(ctx):
    r = ctx.rng
    spec = gen.rc_section(r, poly_only=True, composite=bool(r.integers(2)))
    if r.integers(4) == 0:  # a concrete with some strength in tension
        E, k = gen.uni(r, 8e3, 5e4), gen.uni(r, 0.2, 3)
        x = [-gen.uni(r, 0.003, 0.006), -gen.uni(r, 5e-4, 2e-3), 0.0, gen.uni(r, 5e-5, 2e-4), gen.uni(r, 3e-4, 3e-3)]
        y = [x[1] * E * gen.uni(r, 0.9, 1.2), x[1] * E, 0.0, x[3] * E * k, 0.0]
        spec['mats'][0]['law'] = dict(kind='user', x=x, y=y, flag=0)
    for s in spec['surfs']:
        s['concrete'] = False
    g = build.geometry(spec)
    sec = build.GenericSection(g, integrator=gen.pick(r, ['marin', 'fiber']))
    res = ctx.call('cracked', calculate_elastic_cracked_properties, sec, angle(r), bool(r.integers(2)))
    ctx.check('none', res is None, msg=repr(res), spec=spec)
    ctx.sig('none', desc(spec))
