"""C06: Marin strain ranges and polynomials against the law itself."""
import numpy as np

from .. import build, gen, ref
from ..core import Module
from .c02 import KNOWN_EPU, KNOWN_PAR, _trunc, kinds, peak_total
from .c05 import near, scale

M = Module(
    'C06',
    'random laws incl. nested initial strain / parallel compositions x linear '
    'strain fields e0 + k z (k = 0, tiny, both signs); the polynomials are '
    'evaluated at sampled z in every range and outside; non-trivial = distinct '
    '(law composition, field kind, number of ranges) with non-zero stress',
    required={'mon:stress': 500, 'mon:tangent': 500, 'mon:uniform': 300,
              'mon:ranges': 500, 'mon:outside': 200, 'mon:pwl': 100,
              'mon:consistent': 300, 'mon:siblings': 500},
)


def evaluate(ranges, coeffs, e0, k, z):
    """Sum of the pieces a Marin integration would use at z (nan: ambiguous)."""
    e = e0 + k * z
    val = np.zeros_like(z)
    hit = np.zeros_like(z)
    if ranges is None:
        c = coeffs[0]
        return sum(a * z**i for i, a in enumerate(c)), np.ones_like(z)
    for (lo, hi), c in zip(ranges, coeffs):
        m = (e >= min(lo, hi)) & (e <= max(lo, hi))
        val[m] += sum(a * z[m] ** i for i, a in enumerate(c))
        hit[m] += 1
    return val, hit


def strain_field(r, law):
    kn = [abs(q) for q in law.kinks if 1e-9 < abs(q) < 0.5] or [0.01]
    top = max(kn)
    w = r.random()
    if w < 0.3:
        return 'uniform', gen.pick(r, [0.0, gen.uni(r, -1.5, 1.5) * top, gen.uni(r, -1, 1) * min(kn)]), 0.0
    k = gen.pick(r, [-1, 1]) * gen.pick(r, [1e-5, 1e-6, 1e-3, gen.logu(r, 1e-9, 1e-2)])
    return 'linear', gen.uni(r, -2, 2) * top, k


def compare(ctx, sp, law, obj, what, mode, e0, k):
    fn = obj.__marin__ if what == 'stress' else obj.__marin_tangent__
    form = gen.pick(ctx.rng, [list, tuple])
    ranges, coeffs = ctx.call(f'marin_{what}', fn, strain=form((e0, k)))
    f = law.stress if what == 'stress' else law.tangent
    # ranges: ordered pairs, one polynomial each
    okr = ranges is None or (
        len(ranges) == len(coeffs) and all(len(q) == 2 and q[0] <= q[1] for q in ranges))
    if not ctx.check('ranges', okr and len(coeffs) >= 1, msg=f'{ranges} {coeffs}', strain=(e0, k)):
        return None
    if ranges is None and k != 0 and law_has_limits(sp):
        ctx.fail('ranges:none', f'no ranges for {kinds(sp)} with curvature', strain=(e0, k))
        return None
    kn = [q for q in law.kinks if abs(q) < 90]
    top = max([abs(q) for q in kn] or [0.01])
    es = []
    b = sorted({*kn, 0.0})
    for p, q in zip(b[:-1], b[1:]):
        es += [p + (q - p) * w for w in (0.02, 0.3, 0.6, 0.98)]
    es += [1.3 * b[0] - 1e-4, 1.3 * b[-1] + 1e-4, 3 * top, -3 * top]
    if k == 0:
        es = [e0]
        z = np.array([0.0, 17.0, -350.0])
    else:
        z = (np.array(es) - e0) / k
    e = e0 + k * z
    band = near(e, (*kn, *law.snaps), 1e-5, 1e-9) if k else near(e, (*kn, *law.snaps))
    z, e = z[~band], e[~band]
    if not len(z):
        ctx.ev('skipped_band')
        return None
    if ranges is not None:  # on a joint of two pieces either one is right
        m = ~near(e, {q for pr in ranges for q in pr}, 1e-9, 1e-12)
        z, e = z[m], e[m]
        if not len(z):
            return None
    got, hit = evaluate(ranges, coeffs, e0, k, z)
    exp = f(e)
    # size of the summands of the polynomial, for round-off
    cs = coeffs if ranges is not None else coeffs[:1]
    mag = sum(np.max([abs(c[i]) if i < len(c) else 0.0 for c in cs]) * np.abs(z) ** i
              for i in range(max(len(c) for c in cs)))
    E = float(np.max(np.abs(law.tangent(np.array(es + [0.0])))))
    tol = 1e-10 * mag + 1e-9 * (scale(law) if what == 'stress' else E) + 1e-12
    if not law.poly:
        ptot = peak_total(sp)
        tol = tol + (0.05 * ptot if what == 'stress' else np.inf)
    bad = np.abs(got - exp) > tol
    if np.any(bad):
        for key, epu, par in ((KNOWN_EPU, True, False), (KNOWN_PAR, False, True), (KNOWN_EPU, True, True)):
            tr = _trunc(sp, epu, par)
            if tr == sp:
                continue
            cut = ref.ref_law(tr)
            ex2 = (cut.stress if what == 'stress' else cut.tangent)(e)
            nb = near(e, cut.kinks, 1e-5, 1e-9)
            if np.all((np.abs(got - ex2) <= tol) | nb):
                ctx.fail(key, 'Marin polynomials truncated', law=sp, strain=(e0, k))
                return None
        i = int(np.argmax(bad))
        ctx.events[f'mon:{what}'] += 1
        ctx.fail(f'{what}:{mode}:{kinds(sp).split("(")[0]}',
                 f'{kinds(sp)} at eps={e[i]!r}: polynomial {got[i]} law {exp[i]}',
                 law=sp, strain=(e0, k), ranges=ranges, coeffs=coeffs)
        return None
    ctx.events[f'mon:{what}'] += 1
    if k == 0:
        ctx.events['mon:uniform'] += 1
    if not law.poly:
        ctx.events['mon:pwl'] += 1
    if np.any(hit == 0):
        ctx.events['mon:outside'] += 1
    # never two pieces for one strain (it would be integrated twice)
    ctx.check('once', np.all(hit <= 1), msg=f'{hit} pieces at {e}', law=sp, strain=(e0, k))
    if np.any(exp != 0):
        ctx.sig(kinds(sp), mode, what, 0 if ranges is None else len(ranges))
    return ranges, coeffs


def law_has_limits(sp):
    k = sp['kind']
    if k == 'elastic':
        return False
    if k == 'init':
        return sp.get('compat', True) and law_has_limits(sp['law'])
    if k == 'par':
        return any(law_has_limits(q) for q in sp['laws'])
    return True


@M.family(20000, 200000)
def polynomials(ctx):
    r = ctx.rng
    sp = gen.law_any(r, 0, poly_only=bool(r.integers(2)))
    law = ref.ref_law(sp)
    obj = ctx.call('construct', build.law, sp)
    mode, e0, k = strain_field(r, law)
    ctx.note(law=sp, e0=e0, k=k)
    a = compare(ctx, sp, law, obj, 'stress', mode, e0, k)
    b = compare(ctx, sp, law, obj, 'tangent', mode, e0, k)
    if a and b and k != 0 and not kinds(sp).count('False'):
        # the tangent polynomials are the z-derivative of the stress ones / k
        ra, ca = a
        rb, cb = b
        if ra is not None and rb is not None and len(ra) == len(rb):
            for (qa, pa), (qb, pb) in zip(sorted(zip(ra, ca)), sorted(zip(rb, cb))):
                if not np.allclose(qa, qb, rtol=1e-9, atol=1e-12):
                    break
                d = [i * c for i, c in enumerate(pa)][1:]
                n = max(len(d), len(pb), 1)
                d = np.array(d + [0.0] * (n - len(d))) / k
                p = np.array(list(pb) + [0.0] * (n - len(pb)))
                zz = np.array([(q - e0) / k for q in qa])
                zmax = np.abs(zz).max() ** np.arange(n)
                E = scale(law) / max(abs(qa[1] - qa[0]), 1e-9)
                ctx.check('consistent', np.all(np.abs(d - p) * zmax <= 1e-7 * (np.abs(p) * zmax).max() + 1e-6 * E),
                          key=f'consistent:{kinds(sp).split("(")[0]}', msg=f'{d} vs {p} in {qa}', law=sp, strain=(e0, k))


@M.family(3000, 30000)
def siblings(ctx):
    """Laws that look alike are told apart: several live at one time, are
    asked in turn, and share class, name, limits or other parameters."""
    r = ctx.rng
    sp = gen.law_any(r, 9, poly_only=False) if r.integers(3) else gen.law_conc(r, gen.pick(r, ['sargin', 'popovics', 'prn', 'pr2', 'bilin']))
    sps = [sp, gen.vary_law(r, sp), sp]
    laws = [ref.ref_law(q) for q in sps]
    objs = [ctx.call('construct', build.law, q) for q in sps]
    mode, e0, k = strain_field(r, laws[0])
    for i in r.permutation(3):
        for what in ('stress', 'tangent'):
            compare(ctx, sps[i], laws[i], objs[i], what, 'sibling', e0, k)
    ctx.ev('mon:siblings')


@M.family(2000, 20000)
def discretised(ctx):
    """Piecewise-linear replacement: few percent of the peak, no stress outside."""
    r = ctx.rng
    kind = gen.pick(r, ['prn', 'sargin', 'popovics'])
    sp = gen.law_conc(r, kind)
    law = ref.ref_law(sp)
    obj = ctx.call('construct', build.law, sp)
    k = gen.pick(r, [-1, 1]) * gen.logu(r, 1e-8, 1e-3)
    e0 = gen.uni(r, -2, 2) * abs(law.lims[0])
    ranges, coeffs = ctx.call('marin', obj.__marin__, strain=(e0, k))
    lo = law.lims[0]
    e = np.concatenate((np.linspace(lo * 0.9999, lo * 1e-5, 300), [lo * 1.001, lo * 2, 1e-6, 0.01, 1.0]))
    e = e[~near(e, {q for pr in ranges for q in pr}, 1e-9, 1e-12)]
    z = (e - e0) / k
    got, hit = evaluate(ranges, coeffs, e0, k, z)
    exp = law.stress(e)
    pk = peak_total(sp)
    ctx.check('pwl', np.max(np.abs(got - exp)) <= 0.05 * pk + 1e-9, key=f'pwl:{kind}',
              msg=f'{np.max(np.abs(got - exp)) / pk:.4f} of the peak', law=sp, strain=(e0, k))
    ctx.check('outside', np.all(got[-5:] == 0), key=f'pwl_outside:{kind}', msg=f'{got[-5:]}', law=sp, strain=(e0, k))
    # the approximation is an interpolation: exact at the breakpoints
    bp = np.array(sorted({q for pr in ranges for q in pr}))
    zb = (bp - e0) / k
    for j, (a, b) in enumerate(ranges):
        for q in (a, b):
            zz = (q - e0) / k
            v = sum(c * zz**i for i, c in enumerate(coeffs[j]))
            ctx.check('nodes', abs(v - float(law.stress(np.array([q * (1 - 1e-9)]))[0])) <= 1e-4 * pk,
                      key=f'nodes:{kind}', msg=f'{v} at {q}', law=sp, strain=(e0, k))
    ctx.check('span', abs(bp[0] - lo) <= 2e-4 * abs(lo) or abs(exp[np.argmin(abs(e - bp[0]))]) < 1e-3 * pk,
              key=f'span:{kind}', msg=f'{bp[0]} {lo}', law=sp)
    ctx.sig('pwl', kind, len(ranges))
    del zb
