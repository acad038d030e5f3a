"""C05: stress, tangent, secant and limits of the basic laws."""
import math
import zlib

import numpy as np

from structuralcodes.materials.constitutive_laws import (
    BilinearCompression, Elastic, ElasticPlastic, ParabolaRectangle, Popovics,
    Sargin, UserDefined,
)

from .. import build, gen, ref
from ..core import Module

M = Module(
    'C05',
    'random valid parameters of every basic law, strains on a grid of random, '
    'kink, limit and far values, in scalar/list/tuple/array and integer form; '
    'non-trivial = distinct (law kind, branch of the law, argument form) with '
    'a non-zero expected stress or tangent',
    required={'mon:stress': 400, 'mon:tangent': 300, 'mon:secant': 300,
              'mon:limits': 200, 'mon:form': 400, 'mon:fd': 200,
              'mon:rejects': 20, 'mon:at_limit': 200, 'mon:int': 200},
)


def base_law(r):
    k = gen.pick(r, ['elastic', 'ep', 'pr', 'prn', 'bilin', 'popovics', 'sargin', 'user'])
    if k == 'elastic':
        E = logE(r)
        u = gen.pick(r, [None, gen.uni(r, 0.002, 0.05), (-gen.uni(r, 0.002, 0.05), gen.uni(r, 0.002, 0.05))])
        return dict(kind='elastic', E=E, eps_u=u)
    if k == 'ep':
        return gen.law_steel(r, softening=True)
    if k == 'user':
        return special_points(r, gen.law_user(r))
    return gen.law_conc(r, {'pr': 'pr2'}.get(k, k))


def special_points(r, sp):
    """Tabulated laws as users type them: round strains, and strains or
    stresses that mirror each other in tension and compression."""
    w = r.random()
    if w < 0.5:
        return sp
    x, y = list(sp['x']), list(sp['y'])
    if w < 0.7:
        q = [round(v * 1000) / 1000 for v in x]
        if all(b > a for a, b in zip(q, q[1:])):
            x = q
    if w > 0.6 and x[0] < 0:
        if x[-2] < -x[0]:
            x[-1] = -x[0]
        elif x[1] > -x[-1]:
            x[0] = -x[-1]
    if w > 0.9 and x[0] < 0:
        y[0] = -y[-1]
    return dict(sp, x=x, y=y)


def logE(r):
    return gen.logu(r, 1e2, 3e5)


KEEP = []


def make(sp, r):
    """The library object, with the sign conventions users may choose.

    Now and then a law that differs in its strength only is built and used
    before, and kept alive."""
    w = np.random.default_rng(zlib.crc32(repr(sp).encode()))
    if w.random() < 0.15:
        q = build.law(gen.vary_law(w, sp))
        e = w.uniform(-0.005, 0.005, 5)
        q.get_stress(e), q.get_tangent(e), q.get_secant(e), q.get_ultimate_strain()
        KEEP.append(q)
        del KEEP[:-4]
    k = sp['kind']
    sg = lambda v: v if v is None or r.integers(2) else -v  # noqa: E731
    if k == 'pr':
        return ParabolaRectangle(sg(sp['fc']), sg(sp['eps_0']), sg(sp['eps_u']), sp['n'])
    if k == 'bilin':
        return BilinearCompression(sg(sp['fc']), sg(sp['eps_c']), sg(sp['eps_cu']))
    if k == 'popovics':
        return Popovics(sg(sp['fc']), sg(sp['eps_c']), sg(sp['eps_cu']), Ec=sp.get('Ec'))
    if k == 'sargin':
        return Sargin(sg(sp['fc']), sg(sp['eps_c1']), sg(sp['eps_cu1']), k=sp['k'])
    if k == 'elastic' and isinstance(sp['eps_u'], tuple) and r.integers(2):
        return Elastic(sp['E'], eps_u=(sp['eps_u'][1], sp['eps_u'][0]))
    if k == 'user' and r.integers(2):
        return UserDefined(np.array(sp['x']), np.array(sp['y']), flag=sp.get('flag', 0))
    return build.law(sp)


def grid(r, law, n=24):
    """Strains: random over all branches, close to kinks, far away, zero."""
    k = [q for q in law.kinks if abs(q) < 90]
    top = max([abs(q) for q in k] or [0.01])
    g = list(r.uniform(-1.5, 1.5, n) * top) + [0.0]
    for q in k:
        g += [q, q * (1 - 1e-4), q * (1 + 1e-4), q - 3e-5 * top, q + 3e-5 * top]
    ks = sorted({*k, 0.0})
    for a, b in zip(ks[:-1], ks[1:]):
        g += [a + (b - a) * w for w in (1e-3, 0.25, 0.5, 0.75, 1 - 1e-3)]
    g += [5 * top, -5 * top, 1.0, -1.0, top * 1e-6, -top * 1e-6]
    g = np.array(g)
    r.shuffle(g)
    return g


def near(e, pts, rel=3e-5, ab=3e-6):
    e = np.asarray(e)
    m = np.zeros(e.shape, bool)
    for q in pts:
        m |= np.abs(e - q) <= ab + rel * abs(q)
    return m


def scale(law):
    k = np.array(sorted({*[q for q in law.kinks if abs(q) < 90], 0.0}))
    g = np.concatenate((k, k - 1e-9, k + 1e-9, (k[1:] + k[:-1]) / 2))
    return float(np.max(np.abs(law.stress(g)))) or 1.0


def branch(law, e):
    return sum(e > q for q in law.kinks)


@M.family(9000, 60000)
def stress(ctx):
    r = ctx.rng
    sp = base_law(r)
    law = ref.ref_law(sp)
    obj = ctx.call('construct', make, sp, r)
    e = grid(r, law)
    ctx.note(law=sp)
    far = ~near(e, (*law.lims, *law.kinks)) if law.peak or sp['kind'] != 'elastic' else ~near(e, law.lims)
    exp = law.stress(e)
    tol = 1e-9 * scale(law) + 1e-9 * np.abs(exp)
    form = gen.pick(r, ['array', 'list', 'tuple'])
    arg = {'array': np.array(e), 'list': [float(v) for v in e], 'tuple': tuple(float(v) for v in e)}[form]
    got = ctx.call('get_stress', obj.get_stress, arg)
    if not ctx.check('shape', np.shape(got) == e.shape, msg=f'{np.shape(got)} for {e.shape}'):
        return
    got = np.asarray(got, float)
    ctx.close('stress', got[far], exp[far], 0, tol[far], key=f'stress:{sp["kind"]}', strains=e[far])
    # the scalar gives the same value as the array element by element
    for i in r.choice(len(e), 12, replace=False):
        v = gen.pick(r, [float, np.float64])(e[i])
        s = ctx.call('get_stress_scalar', obj.get_stress, v)
        ctx.check('form', np.isscalar(s) or np.ndim(s) == 0, key='form:scalar', msg=f'{s!r}')
        ctx.close('form', s, got[i], 1e-12, 1e-12 * scale(law),
                  key=f'form:stress:{sp["kind"]}', msg=f'at {v}')
    # where the strain is inside the snapping band only the two documented
    # values are possible: the formula, or the stress at the limit
    for i in np.flatnonzero(~far):
        opts = [float(law.stress(np.array([w]))[0]) for w in (
            e[i], e[i] * (1 + 1e-12), e[i] * (1 - 1e-12))]
        for q in law.lims:
            if abs(e[i] - q) <= 3e-6 + 3e-5 * abs(q):
                w = q * (1 - 1e-12)
                opts.append(float(law.stress(np.array([w]))[0]))
        ctx.check('at_limit', min(abs(got[i] - o) for o in opts) <= tol[i] + 1e-6 * scale(law),
                  key=f'at_limit:{sp["kind"]}', msg=f'{got[i]} not in {opts} at {e[i]!r}')
    for v in set(branch(law, x) for x in e[np.abs(exp) > 0]):
        ctx.sig(sp['kind'], int(v), form, sp.get('flag'), sp.get('n', 0) == 2)


@M.family(4500, 30000)
def limits(ctx):
    r = ctx.rng
    sp = base_law(r)
    law = ref.ref_law(sp)
    obj = ctx.call('construct', make, sp, r)
    ctx.note(law=sp)
    lim = ctx.call('get_ultimate_strain', obj.get_ultimate_strain)
    yl = ctx.call('get_ultimate_strain_y', obj.get_ultimate_strain, yielding=True)
    if not (sp['kind'] == 'elastic' and sp['eps_u'] is None):
        ctx.close('limits', lim, law.lims, 1e-12, 0, key=f'limits:{sp["kind"]}')
        ctx.close('limits', yl, law.ylims, 1e-12, 0, key=f'yield:{sp["kind"]}')
    else:
        ctx.check('limits', lim[0] < -1 and lim[1] > 1 and lim == yl, key='limits:elastic_free', msg=f'{lim}')
    # the stress at exactly the ultimate strain is the one just inside, and it
    # vanishes (or continues, without ultimate strain) outside
    for q in lim:
        if abs(q) > 90:
            continue
        inside = float(law.stress(np.array([q * (1 - 1e-9)]))[0])
        for arg in (float(q), np.array([q]), [float(q)]):
            s = ctx.call('get_stress', obj.get_stress, arg)
            ctx.close('at_limit', np.ravel(s)[0], inside, 1e-6, 1e-6 * scale(law),
                      key=f'at_limit_exact:{sp["kind"]}', msg=f'{q}')
        # round-off of a strain at the limit does not lose the stress
        for d in (1, -1):
            w = q * (1 + d * 4e-16 * float(r.integers(1, 2000)))
            for arg in (float(w), np.array([w, 0.0]), [0.0, float(w)]):
                s = ctx.call('get_stress', obj.get_stress, arg)
                s = np.ravel(s)[1 if isinstance(arg, list) else 0]
                ctx.close('at_limit', s, inside, 1e-6, 1e-6 * scale(law), key=f'at_limit_round:{sp["kind"]}', msg=f'{w!r} for limit {q!r}')
        for d in (1e-7, -1e-7):
            s = ctx.call('get_stress', obj.get_stress, float(q + d))
            out = float(law.stress(np.array([q + d]))[0])
            ctx.check('at_limit', min(abs(s - inside), abs(s - out)) <= 1e-2 * scale(law) + 1e-6,
                      key=f'snap:{sp["kind"]}', msg=f'{s} at {q}+{d}: {inside} or {out}')
        beyond = q * 1.01 + math.copysign(2e-6, q)
        s = ctx.call('get_stress', obj.get_stress, np.array([beyond]))
        ctx.close('at_limit', s[0], float(law.stress(np.array([beyond]))[0]), 1e-9, 1e-9 * scale(law),
                  key=f'beyond:{sp["kind"]}')
    ctx.sig('lim', sp['kind'], sp.get('eps_su') is None, isinstance(sp.get('eps_u'), tuple))
    if sp['kind'] == 'user' and r.integers(2):
        u = gen.pick(r, [0.01, (-0.005, 0.01), (0.02, -0.003)])
        o2 = ctx.call('construct', UserDefined, sp['x'], sp['y'], eps_u=u)
        exp = (-u, u) if isinstance(u, float) else (min(u), max(u))
        ctx.close('limits', o2.get_ultimate_strain(), exp, 1e-12, key='limits:user_set')


@M.family(6000, 40000)
def tangent(ctx):
    r = ctx.rng
    sp = base_law(r)
    law = ref.ref_law(sp)
    obj = ctx.call('construct', make, sp, r)
    ctx.note(law=sp)
    e = grid(r, law)
    e = e[~near(e, (*law.lims,)) | (sp['kind'] == 'elastic')]
    kn = near(e, law.kinks, 0, 1e-9)
    exp = law.tangent(e)
    got = ctx.call('get_tangent', obj.get_tangent, gen.pick(r, [np.array, list, tuple])(e))
    got = np.asarray(got, float)
    if not ctx.check('shape', got.shape == e.shape, msg=f'{got.shape} {e.shape}'):
        return
    E = max(float(np.max(np.abs(exp))), 1e-9)
    ctx.close('tangent', got[~kn], exp[~kn], 1e-9, 1e-9 * E, key=f'tangent:{sp["kind"]}', strains=e[~kn])
    # at a kink: one of the one-sided derivatives
    for i in np.flatnonzero(kn):
        o = law.tangent(np.array([e[i] - 1e-8, e[i], e[i] + 1e-8]))
        ctx.check('tangent', np.min(np.abs(o - got[i])) <= 1e-4 * E + 1e-9,
                  key=f'tangent_kink:{sp["kind"]}', msg=f'{got[i]} not in {o} at {e[i]}')
    for i in r.choice(len(e), min(12, len(e)), replace=False):
        s = ctx.call('get_tangent_scalar', obj.get_tangent, float(e[i]))
        ctx.close('form', s, got[i], 1e-12, 1e-12 * E,
                  key=f'form:tangent:{sp["kind"]}', msg=f'at {e[i]!r}')
    # derivative of the observed stress
    h = 1e-8
    ok = ~near(e, (*law.kinks, *law.lims), 3e-5, 6e-6) & (np.abs(e) < 1)
    if ok.any():
        x = e[ok]
        s1 = np.asarray(ctx.call('get_stress', obj.get_stress, x + h), float)
        s0 = np.asarray(ctx.call('get_stress', obj.get_stress, x - h), float)
        ctx.close('fd', got[ok], (s1 - s0) / (2 * h), 2e-5, 2e-5 * E + 1e-7 * scale(law) / h * 1e-6,
                  key=f'fd:{sp["kind"]}', strains=x)
    ctx.sig('tan', sp['kind'], len(set(branch(law, x) for x in e)), sp.get('flag'))


@M.family(4500, 30000)
def secant(ctx):
    r = ctx.rng
    sp = base_law(r)
    law = ref.ref_law(sp)
    obj = ctx.call('construct', make, sp, r)
    ctx.note(law=sp)
    e = grid(r, law, 12)
    e = e[(np.abs(e) > 1e-9) | (e == 0)]
    tiny = gen.pick(r, [-1, 1]) * gen.logu(r, 1e-14, 1e-8)
    e = np.insert(e, int(r.integers(len(e))), [tiny, -tiny])
    sec = np.asarray(ctx.call('get_secant', obj.get_secant, gen.pick(r, [np.array, list])(e)), float)
    sig = np.asarray(ctx.call('get_stress', obj.get_stress, np.array(e)), float)
    t0 = float(np.ravel(ctx.call('get_tangent', obj.get_tangent, 0.0))[0])
    exp = np.where(e == 0, t0, sig / np.where(e == 0, 1, e))
    if not ctx.check('shape', sec.shape == e.shape, msg='secant shape'):
        return
    ctx.close('secant', sec, exp, 1e-10, 1e-10 * abs(t0), key=f'secant:{sp["kind"]}', strains=e)
    for i in r.choice(len(e), 8, replace=False):
        s = ctx.call('get_secant_scalar', obj.get_secant, float(e[i]))
        ctx.close('form', s, exp[i], 1e-10, 1e-10 * abs(t0) + 1e-13 * scale(law) / max(abs(e[i]), 1e-15),
                  key=f'form:secant:{sp["kind"]}')
    s = ctx.call('get_secant', obj.get_secant, 0.0)
    ctx.close('secant', s, t0, 1e-12, key=f'secant0:{sp["kind"]}')


@M.family(3000, 20000)
def integers(ctx):
    """Integer arguments (scalar, list, array, parameters) act like floats."""
    r = ctx.rng
    sp = base_law(r)
    for k in ('E', 'fc', 'fy', 'Eh', 'Ec'):  # integer valued parameters
        if isinstance(sp.get(k), float) and r.integers(2):
            sp[k] = int(round(sp[k])) if sp[k] >= 1 else sp[k]
    if sp['kind'] == 'user' and r.integers(2):
        sp['y'] = [int(round(v)) for v in sp['y']]
    fsp = {k: ([float(q) for q in v] if k == 'y' else float(v) if isinstance(v, int) and k not in ('flag',) else v)
           for k, v in sp.items()}
    obj = ctx.call('construct', build.law, sp)
    fobj = ctx.call('construct', build.law, fsp)
    law = ref.ref_law(fsp)
    ctx.note(law=sp)
    ints = [int(v) for v in r.integers(-3, 4, 6)] + [0]
    E = max(1.0, float(np.max(np.abs(law.tangent(np.array([-1e-6, 0.0, 1e-6]))))))
    for name in ('get_stress', 'get_tangent', 'get_secant'):
        f, g = getattr(obj, name), getattr(fobj, name)
        exp = np.asarray(ctx.call(name, g, np.array(ints, float)), float)
        for arg in (ints, np.array(ints), tuple(ints)):
            got = ctx.call(name, f, arg)
            ctx.close('int', got, exp, 1e-9, 1e-9 * E, key=f'int:{name}:{sp["kind"]}', msg=f'{ints}')
        i = int(r.integers(len(ints)))
        got = ctx.call(name, f, ints[i])
        ctx.close('int', got, exp[i], 1e-9, 1e-9 * E, key=f'int_scalar:{name}:{sp["kind"]}')
    e = grid(r, law, 10)
    ctx.close('int', ctx.call('get_stress', obj.get_stress, e), fobj.get_stress(np.array(e)),
              1e-9, 1e-9 * scale(law), key=f'int_par:{sp["kind"]}', strains=e)
    ctx.close('int', ctx.call('get_tangent', obj.get_tangent, e), fobj.get_tangent(np.array(e)),
              1e-9, 1e-9 * E, key=f'int_par_t:{sp["kind"]}', strains=e)
    ctx.sig('int', sp['kind'], sp.get('flag'), sorted(set(ints)))


@M.family(90, 300)
def invalid(ctx):
    r = ctx.rng
    E = -gen.pick(r, [0.0, gen.logu(r, 1, 1e5)])
    ctx.rejects('rejects', 'Elastic', Elastic, E)
    ctx.rejects('rejects', 'ElasticPlastic', ElasticPlastic, E, 400)
    ctx.rejects('rejects', 'Elastic_eps_u', Elastic, 1000.0, eps_u=(0.01, 0.02))
    ctx.rejects('rejects', 'Elastic_eps_u', Elastic, 1000.0, eps_u=(-0.01, -0.02))
    ctx.rejects('rejects', 'Elastic_eps_u', Elastic, 1000.0, eps_u=(0.01,))
    ctx.rejects('rejects', 'UserDefined_len', UserDefined, [0, 0.1, 0.2], [0, 1])
    ctx.rejects('rejects', 'UserDefined_flag', UserDefined, [0, 0.1], [0, 1], flag=int(gen.pick(r, [-1, 4, 7])))
    ctx.rejects('rejects', 'UserDefined_eps_u', UserDefined, [0, 0.1], [0, 1], eps_u=(0.01, 0.02))
    ctx.rejects('rejects', 'Popovics_Ec', Popovics, 30.0, Ec=-gen.uni(r, 0, 3e4))
    ctx.sig('inv', E)
