"""C02: internal forces equal the area integral of the stresses."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Module

M = Module(
    'C02',
    'random composite sections (convex/non-convex surfaces, holes, disjoint '
    'parts, bars of several materials) x random laws x strain planes (generic, '
    'uniform, axis-aligned, tiny curvature, kink strain exactly on a vertex or '
    'edge); non-trivial = distinct (shapes, law kinds, plane mode, bars) with '
    'non-zero forces',
    required={'mon:marin': 200, 'mon:fiber_sum': 60, 'mon:fiber_loose': 60,
              'mon:fiber_mesh': 60},
    assumptions=[
        'reference: Green-theorem edge quadrature of independently coded laws',
        'laws without closed-form Marin coefficients: tolerance 4% of peak',
    ],
)


def unit_size(r):
    """Characteristic size: mostly mm, some sections in metres."""
    return gen.logu(r, 0.05, 3) if r.integers(4) == 0 else None


def law_scale(law, strain, R):
    """Upper bound of |polynomial coefficients| seen by the Marin sums."""
    e = abs(strain[0]) + math.hypot(strain[1], strain[2]) * R
    grid = [q for q in law.kinks if abs(q) < 90] + [0.0]
    g = np.array(sorted(grid))
    mids = np.concatenate((g - 1e-7, g + 1e-7, 0.5 * (g[1:] + g[:-1])))
    E = float(np.max(np.abs(law.tangent(mids)))) if len(mids) else 0.0
    S = float(np.max(np.abs(law.stress(mids)))) if len(mids) else 0.0
    e0 = max([abs(q) for q in grid if q] or [1.0])
    lin = E * e + S
    return lin * (1 + (e / e0 if law.peak else 0.0))


def tol_vec(spec, strain, refs, what='stress'):
    surfs, pts, _ = refs
    xy = gen.all_xy(spec)
    R = float(np.max(np.hypot(xy[:, 0], xy[:, 1])))
    t0 = 0.0
    for s, law in surfs:
        A = abs(ref.signed_area(s['ext']))
        # areas of shapes far from the origin are small differences of large
        # terms of the order of R**2
        t0 += (A + 1e-4 * R * R) * law_scale(law, strain, R)
    for y, z, A, law in pts:
        t0 += A * law_scale(law, strain, R)
    return t0 * 1e-10 * np.array([1, R, R])


def loose_nonpoly(spec, refs, factor=0.04):
    """Extra tolerance for laws the library discretises."""
    surfs, _, _ = refs
    t = np.zeros(3)
    for s, law in surfs:
        if not law.poly:
            xy = np.abs(np.array(s['ext']))
            A = abs(ref.signed_area(s['ext']))
            t += factor * law.peak_total * A * np.array([1, xy[:, 1].max(), xy[:, 0].max()])
    return t


def peak_total(lawspec):
    k = lawspec['kind']
    if k in ('pr', 'popovics', 'sargin'):
        # at least fc; more where a coarse (8 segments) piecewise linear law
        # deviates by more than 4 % of it (laws with a sharp descent)
        w = ref.ref_law(lawspec)
        lo = w.lims[0]
        g = np.linspace(lo, 0, 401)
        kn = np.linspace(lo, 0, 9)
        d = float(np.max(np.abs(np.interp(g, kn, w.stress(kn)) - w.stress(g))))
        return max(abs(lawspec['fc']), d / 0.04)
    if k == 'init':
        return peak_total(lawspec['law'])
    if k == 'par':
        w = lawspec.get('w') or [1.0] * len(lawspec['laws'])
        return sum(a * peak_total(q) for a, q in zip(w, lawspec['laws']))
    return 0.0


def refs_of(spec):
    r = gen.spec_refs(spec)
    for m, law in zip(spec['mats'], r[2]):
        law.peak_total = peak_total(m['law'])
    return r


def near_uniform_limit(spec, strain, refs):
    """Uniform strain (or bar strain) inside the snapping band of a limit."""
    surfs, pts, laws = refs
    e0, ky, kz = strain

    def band(law, e):
        return any(
            0 < abs(e - q) <= 3e-6 + 3e-5 * abs(q) for q in (*law.snaps, *law.kinks)
        ) or any(e == q for q in law.snaps)

    if ky == 0 and kz == 0 and any(band(law, e0) for _, law in surfs):
        return True
    return any(band(law, e0 + ky * z - kz * y) for y, z, _, law in pts)


KNOWN_EPU = 'known:marin-elasticplastic-without-eps_su-beyond-2-eps_sy'


KNOWN_PAR = 'known:marin-parallel-drops-unlimited-member-outside-limited-members'


def _range(sp):
    """Strain range covered by the Marin polynomials of a law (None: all)."""
    k = sp['kind']
    if k == 'elastic':
        return None
    if k == 'ep':
        su = sp.get('eps_su')
        su = 2 * sp['fy'] / sp['E'] if su is None else su
        return (-su, su)
    if k == 'init':
        if not sp.get('compat', True):
            return None
        q = _range(sp['law'])
        return q and (q[0] - sp['e0'], q[1] - sp['e0'])
    if k == 'par':
        q = [v for v in map(_range, sp['laws']) if v]
        return (min(v[0] for v in q), max(v[1] for v in q)) if q else None
    law = ref.ref_law(sp)
    if k == 'user':
        return (law.kinks[0], law.kinks[-1])
    return (law.lims[0], 0.0)


def _trunc(sp, epu=True, par=True):
    """The law with the truncations of the known findings applied."""
    k = sp['kind']
    if k == 'ep' and sp.get('eps_su') is None:
        return {**sp, 'eps_su': 2 * sp['fy'] / sp['E']} if epu else sp
    if k == 'init' and sp.get('compat', True):
        return {**sp, 'law': _trunc(sp['law'], epu, par)}
    if k == 'par':
        laws = [_trunc(q, epu, par) for q in sp['laws']]
        q = _range(sp)
        if par and q:
            laws = [
                dict(kind='trunc', law=w, lo=q[0], hi=q[1]) if _range(w) is None else w
                for w in laws
            ]
        return {**sp, 'laws': laws}
    return sp


def known_truncation(spec, points, strain, got, tol, what='stress'):
    """Key of the known finding which explains `got`, or None."""
    for key, epu, par in ((KNOWN_EPU, True, False), (KNOWN_PAR, False, True),
                          (KNOWN_EPU, True, True)):
        if not has_trunc(spec, epu, par):
            continue
        ex2, _ = ref.section_integral(
            truncated_refs(spec, epu, par), points, strain, what)
        if np.all(np.abs(np.asarray(got, float) - ex2) <= tol):
            return key
    return None


def has_trunc(spec, epu=True, par=True):
    return any(_trunc(m['law'], epu, par) != m['law'] for m in spec['mats'])


def has_epu(spec):
    return has_trunc(spec)


def truncated_refs(spec, epu=True, par=True):
    s2 = {**spec, 'mats': [{**m, 'law': _trunc(m['law'], epu, par)} for m in spec['mats']]}
    return refs_of(s2)[0]


def desc(spec):
    return (
        [s['shape'] for s in spec['surfs']],
        [kinds(spec['mats'][s['mat']]['law']) for s in spec['surfs']],
        [len(s['holes']) for s in spec['surfs']],
        len(spec['points']),
    )


def kinds(sp):
    if sp['kind'] == 'init':
        return f"init({kinds(sp['law'])},{sp.get('compat', True)})"
    if sp['kind'] == 'par':
        return 'par(' + ','.join(kinds(q) for q in sp['laws']) + ')'
    if sp['kind'] == 'pr':
        return 'pr2' if sp['n'] == 2 else 'prn'
    if sp['kind'] == 'ep':
        return 'ep' + ('u' if sp.get('eps_su') is None else '')
    if sp['kind'] == 'user':
        return f"user{sp.get('flag', 0)}"
    return sp['kind']


def lk(spec):
    return '+'.join(sorted({kinds(m['law']).split('(')[0] for m in spec['mats']}))


@M.family(4000, 60000)
def marin(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=bool(r.integers(3)), size=unit_size(r), far=0.12)
    refs = refs_of(spec)
    sec = build.section(spec, 'marin')
    calc = sec.section_calculator
    for _ in range(4):
        mode, strain = gen.strain_plane(r, spec)
        if near_uniform_limit(spec, strain, refs):
            ctx.ev('skipped_band')
            continue
        exp, mag = ref.section_integral(refs[0], refs[1], strain)
        as_ = gen.pick(r, [list, tuple, np.array])
        got = ctx.call('integrate_strain_profile', calc.integrate_strain_profile, as_(strain))
        tol = tol_vec(spec, strain, refs) + loose_nonpoly(spec, refs) + 1e-9 * mag
        ok = np.all(np.abs(np.array(got, float) - exp) <= tol)
        if not ok:
            # known findings: elastic-plastic surfaces without eps_su and
            # parallel laws with an unlimited member lose stress
            kf = known_truncation(spec, refs[1], strain, got, tol)
            if kf:
                ctx.fail(kf, 'Marin integration truncated', spec=spec, strain=strain)
                continue
        if not ctx.close('marin', np.array(got, float), exp, 0, tol,
                         key=f'marin:{mode}', msg=f'{lk(spec)} {desc(spec)}',
                         spec=spec, strain=strain):
            return
        if np.any(np.abs(exp) > 0):
            ctx.sig(desc(spec), mode, round(float(np.sign(exp[0]))))
        ctx.note(desc=desc(spec), strain=strain, forces=exp)


@M.family(1000, 15000)
def fiber(ctx):
    r = ctx.rng
    spec = gen.mixed_section(r, max_parts=2, size=unit_size(r), far=0.08)
    refs = refs_of(spec)
    mesh = gen.pick(r, [0.01, 0.003, 0.05, 0.2, 1.0, 0.001])
    sec = build.section(spec, 'fiber', mesh_size=mesh)
    calc = sec.section_calculator
    geo = sec.geometry
    # structure of the fibres, when the integrator returns it
    data = None
    try:
        data = calc.integrator.integrate_strain_response_on_geometry(
            geo, [0.0, 0.0, 0.0], 'stress', mesh_size=mesh
        )[3]
        data = [
            (np.atleast_1d(np.asarray(d[0], float)), np.atleast_1d(np.asarray(d[1], float)),
             np.atleast_1d(np.asarray(d[2], float)))
            for d in data
        ]
        if len(data) < len(spec['surfs']):
            data = None
    except (AttributeError, IndexError, TypeError):
        data = None
    if data is not None:
        ctx.ev('fibre_structures')
        for s, d in zip(spec['surfs'], data):
            mom = ref.poly_moments(s)
            R = max(map(lambda p: max(abs(p[0]), abs(p[1])), s['ext']))
            sc = mom['A']
            ctx.close('fiber_mesh', [d[2].sum(), (d[2] * d[0]).sum(), (d[2] * d[1]).sum()],
                      [mom['A'], mom['y'], mom['z']], 1e-8, (1e-8 * sc + 1e-14 * R * R) * np.array([1, R, R]),
                      key='fiber_mesh', msg=f"{s['shape']} holes {len(s['holes'])}", surf=s, mesh=mesh)
            ctx.check('fiber_size', d[2].max() <= mesh * mom['A'] * (1 + 1e-6),
                      msg=f'fibre {d[2].max()} larger than mesh_size*A={mesh * mom["A"]}', surf=s)
    for _ in range(3):
        mode, strain = gen.strain_plane(r, spec)
        if near_uniform_limit(spec, strain, refs):
            ctx.ev('skipped_band')
            continue
        got = ctx.call('integrate_strain_profile', calc.integrate_strain_profile, list(strain))
        got = np.array(got, float)
        exp, mag = ref.section_integral(refs[0], refs[1], strain)
        # 1. loose: mesh resolution
        tol = 1e-7 * mag + tol_vec(spec, strain, refs)
        kap = math.hypot(strain[1], strain[2])
        for s, law in refs[0]:
            A = abs(ref.signed_area(s['ext']))
            xy = np.array(s['ext'])
            diam = float(np.hypot(*np.ptp(xy, axis=0)))
            Rm = np.array([1, np.abs(xy[:, 1]).max(), np.abs(xy[:, 0]).max()])
            d = min(2.7 * math.sqrt(mesh * A), diam)
            ev = strain[0] + strain[1] * xy[:, 1] - strain[2] * xy[:, 0]
            lo, hi = ev.min(), ev.max()
            g = np.linspace(lo, hi, 200)
            st = law.stress(g)
            ks = [q for q in law.kinks if lo - kap * d <= q <= hi + kap * d]
            # area within one fibre of a kink/jump of the stress
            near = min(A, len(ks) * 2 * d * diam)
            E = float(np.max(np.abs(np.diff(st)))) / max((hi - lo) / 199, 1e-30) if hi > lo else 0.0
            pk = float(np.max(np.abs(law.stress(np.concatenate((g, *([q - 1e-9, q, q + 1e-9] for q in (*ks, *law.snaps) if lo - 1e-3 <= q <= hi + 1e-3)))))))
            jump = min(2 * pk, E * kap * d if law.poly else 2 * pk)
            tol = tol + min(1.0, near / A) * A * min(2 * pk, max(jump, 0)) * Rm
            tol = tol + pk * A * np.array([0, d, d])
            for q in law.snaps:
                bd = 2e-6 + 2e-5 * abs(q)
                if lo - bd <= q <= hi + bd:
                    tol = tol + 2 * pk * A * min(1.0, 8 * bd / max(hi - lo, 1e-30)) * Rm
            if not law.poly or law.peak:
                tol = tol + 2 * pk * A * min(1, (d / diam)) * Rm
        if mode != 'uniform':
            ctx.close('fiber_loose', got, exp, 0, tol, key='fiber_loose',
                      msg=f'{mode} mesh {mesh} {desc(spec)}', spec=spec, strain=strain)
        else:
            ctx.close('fiber_uniform', got, exp, 0, 1e-7 * mag + tol_vec(spec, strain, refs) + 1e-9 * mag,
                      key='fiber_uniform', msg=desc(spec), spec=spec, strain=strain)
        # 2. tight: the sum over the fibres, away from the snapping band
        if data is not None:
            tot = np.zeros(3)
            band = np.zeros(3)
            mg = np.zeros(3)
            for (s, law), d in zip(refs[0], data):
                e = strain[0] + strain[1] * d[1] - strain[2] * d[0]
                sg = law.stress(e)
                nr = np.zeros(e.shape, bool)
                for q in (*law.snaps, *law.kinks):
                    nr |= np.abs(e - q) <= 3e-6 + 3e-5 * abs(q)
                f = sg * d[2]
                tot += [f.sum(), (f * d[1]).sum(), -(f * d[0]).sum()]
                # within the band the stress may be that of the limit
                pk = law.peak_band if hasattr(law, 'peak_band') else float(
                    np.max(np.abs(law.stress(np.array([*law.kinks, *law.snaps, 0.0]))), initial=0)
                )
                pk = max(pk, float(np.max(np.abs(sg), initial=0.0)))
                fb = np.where(nr, 2 * pk * d[2], 0.0)
                band += [fb.sum(), np.abs(fb * d[1]).sum(), np.abs(fb * d[0]).sum()]
                fa = np.abs(f)
                mg += [fa.sum(), np.abs(fa * d[1]).sum(), np.abs(fa * d[0]).sum()]
            pt, pm = ref.section_integral([], refs[1], strain)
            ctx.close('fiber_sum', got, tot + pt, 0, band + 1e-9 * (mg + pm) + 1e-12 * tol,
                      key='fiber_sum', msg=f'{mode} {desc(spec)}', spec=spec, strain=strain, mesh=mesh)
            ctx.sig(desc(spec), mode, mesh)


@M.family(800, 10000)
def agree(ctx):
    """Bars only, duplicated laws, bars of several materials: both integrators."""
    r = ctx.rng
    spec = gen.mixed_section(r, poly_only=True, npoints=int(r.integers(1, 9)), max_parts=1)
    refs = refs_of(spec)
    mode, strain = gen.strain_plane(r, spec)
    if near_uniform_limit(spec, strain, refs):
        return
    cm = build.section(spec, 'marin').section_calculator
    cf = build.section(spec, 'fiber', mesh_size=0.01).section_calculator
    a = np.array(ctx.call('marin', cm.integrate_strain_profile, list(strain), 'stress'), float)
    b = np.array(ctx.call('fiber', cf.integrate_strain_profile, list(strain), 'stress'), float)
    a2 = np.array(ctx.call('marin', cm.integrate_strain_profile, list(strain)), float)
    ctx.close('repeat', a2, a, 1e-9, tol_vec(spec, strain, refs), key='repeat', spec=spec, strain=strain)
    # without the surfaces the two must agree to round-off
    s2 = {**spec, 'surfs': [{**spec['surfs'][0], 'mat': len(spec['mats'])}],
          'mats': [*spec['mats'], dict(law=dict(kind='elastic', E=1e-3))]}
    refs2 = refs_of(s2)
    exp, mag = ref.section_integral(refs2[0], refs2[1], strain)
    for it in ('marin', 'fiber'):
        c = build.section(s2, it).section_calculator
        g = np.array(ctx.call(it, c.integrate_strain_profile, list(strain)), float)
        A = abs(ref.signed_area(s2['surfs'][0]['ext']))
        ctx.close('bars', g, exp, 0, 1e-9 * mag + tol_vec(s2, strain, refs2)
                  + 1e-3 * 0.1 * A * (abs(strain[0]) + math.hypot(*strain[1:]) * 1e4) * np.array([1, 1e4, 1e4]) * (it == 'fiber') * 0.01,
                  key=f'bars:{it}', spec=s2, strain=strain)
    ctx.sig(desc(spec), mode)


def beyond_case(r):
    """Surface strained far beyond the range of a law truncated by Marin."""
    kind, rings = gen.placed_shape(r, 300.0, gen.pick(r, ['rect', 'I', 'star']))
    ep = dict(kind='ep', E=2e5, fy=gen.uni(r, 235, 500), Eh=0.0, eps_su=None)
    if r.integers(2):
        law = ep
    else:
        ep['eps_su'] = 2 * ep['fy'] / ep['E']
        law = dict(kind='par', laws=[ep, dict(kind='elastic', E=gen.uni(r, 1e3, 1e5))])
    spec = dict(surfs=[dict(ext=rings[0], holes=rings[1:], mat=0, shape=kind)],
                points=[], mats=[dict(law=law)], size=300.0)
    ey = ep['fy'] / ep['E']
    xy = gen.all_xy(spec)
    c = xy.mean(axis=0)
    k = gen.uni(r, 4, 20) * 2 * ey / np.ptp(xy[:, 1])
    return spec, (-k * c[1], k, 0.0)


def beyond_check(ctx, what):
    """Demonstrates the two known findings at the centre of their domain."""
    spec, strain = beyond_case(ctx.rng)
    refs = refs_of(spec)
    calc = build.section(spec, 'marin').section_calculator
    got = ctx.call('integrate_strain_profile', calc.integrate_strain_profile, list(strain), what)
    exp, mag = ref.section_integral(refs[0], refs[1], strain, what)
    tol = 1e-8 * mag
    if np.all(np.abs(np.array(got, float) - exp) <= tol):
        ctx.ev('beyond_full_stress')
        return
    kf = known_truncation(spec, refs[1], strain, got, tol, what)
    ctx.fail(kf or 'beyond', f'got {got} expected {exp}', spec=spec, strain=strain)


@M.family(16, 80)
def beyond(ctx):
    beyond_check(ctx, 'stress')
