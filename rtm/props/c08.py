"""C08: section results are independent of the history of previous calls."""
import math

import numpy as np

from structuralcodes.geometry import CompoundGeometry
from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

from .. import build, gen
from ..core import Module
from ..zygote import zygote
from .c02 import desc
from .c10 import case, theta_of

M = Module(
    'C08',
    'random sections (both integrators, mesh sizes 0.01-1) x random histories '
    'of analyses, failing calls and injected faults, also interleaved with a '
    'second section on the same or another geometry; oracle: the same call on '
    'a freshly built section in a process which has run nothing else; '
    'non-trivial = distinct (section, integrator, sequence of operations)',
    required={'mon:same-result': 800, 'mon:same-error': 40, 'mon:probe': 300,
              'mon:fault-propagates': 40},
)


class Injected(Exception):
    pass


class InjectedExit(BaseException):
    pass


# -- operations: plain data, run on a section ------------------------------
def own(*raw):
    """The caller does what he likes with the arrays he was given."""
    for v in raw:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v *= -0.7
    return raw[0]


def _res(obj, names):
    out = {k: np.array(getattr(obj, k), dtype=float) for k in names}
    own(*(getattr(obj, k) for k in names))
    return out


def _arr(v):
    out = np.array(v, float)
    own(v)
    return out


GROSS = ('area', 'area_reinforcement', 'mass', 'ea', 'sy', 'sz', 'cy', 'cz', 'iyy', 'izz', 'iyz', 'iyy_c', 'izz_c',
         'iyz_c', 'i11', 'i22', 'theta', 'e_iyy', 'e_izz', 'e_iyz', 'e_i11', 'e_i22', 'e_theta', 'e_sy', 'e_sz',
         'perimeter')


def run(sec, op):
    """Result of an operation as a dict of arrays."""
    k, a = op[0], op[1:]
    c = sec.section_calculator
    if k == 'stress':
        return {'f': _arr(c.integrate_strain_profile(*a))}
    if k == 'modulus':
        return {'K': _arr(c.integrate_strain_profile(a[0], 'modulus'))}
    if k == 'gross':
        return _res(sec.gross_properties, [n for n in GROSS if hasattr(sec.gross_properties, n)])
    if k == 'limits':
        return {'n': _arr(c.calculate_limit_axial_load())}
    if k == 'n_min':
        return {'n': np.array(c.n_min, float)}
    if k == 'n_max':
        return {'n': np.array(c.n_max, float)}
    if k == 'check':
        c.check_axial_load(*a)
        return {}
    if k == 'strength':
        return _res(c.calculate_bending_strength(*a), ('theta', 'n', 'm_y', 'm_z', 'eps_a', 'chi_y', 'chi_z'))
    if k == 'mc':
        return _res(c.calculate_moment_curvature(**a[0]), ('theta', 'n', 'chi_y', 'chi_z', 'eps_axial', 'm_y', 'm_z'))
    if k in ('nm', 'nmm'):
        f = c.calculate_nm_interaction_domain if k == 'nm' else c.calculate_nmm_interaction_domain
        r = f(**a[0])
        return _res(r, ('forces', 'strains'))
    if k == 'mm':
        r = c.calculate_mm_interaction_domain(**a[0])
        return _res(r, ('theta', 'm_y', 'm_z', 'forces', 'strains') if hasattr(r, 'strains') else ('theta', 'm_y', 'm_z'))
    if k == 'profile':
        return {'strain': _arr(c.calculate_strain_profile(*a[0], **a[1]))}
    if k == 'cracked':
        r = calculate_elastic_cracked_properties(sec, *a)
        return {'none': np.array(1.0)} if r is None else _res(r, [n for n in GROSS if hasattr(r, n)])
    if k == 'balanced':
        r = c.get_balanced_failure_strain(sec.geometry, *a)
        return {'b': np.array([r[0], r[1], *r[2]], float)}
    if k == 'curvature':
        return {'s': _arr(c.find_equilibrium_fixed_curvature(sec.geometry, *a))}
    if k == 'pivot':
        return {'s': _arr(c.find_equilibrium_fixed_pivot(sec.geometry, *a))}
    raise KeyError(k)


def outcome(sec, op):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                return ('ok', run(sec, op))
            except (Injected, InjectedExit):
                raise
            except Exception as ex:  # noqa: BLE001
                return ('exc', type(ex).__name__, str(ex)[:300])


def variants(op):
    """The same call with arguments changed by round-off."""
    k = op[0]
    out = []
    for d in (3e-15, -7e-15):
        if k in ('strength', 'pivot', 'check', 'curvature'):
            i = 2 if k == 'strength' else 1
            o = list(op)
            if isinstance(o[i], float):
                o[i] = o[i] * (1 + 30 * d)
            if k == 'strength' and isinstance(o[1], float):
                o[1] += d
            out.append(tuple(o))
        elif k == 'profile':
            if all(isinstance(v, float) for v in op[1]):
                s = max(map(abs, op[1])) * 30 * d
                out.append((k, tuple(v * (1 + 30 * d) for v in op[1]), op[2]))
                out.append((k, tuple(v + s for v in op[1]), op[2]))
        elif k in ('mc', 'mm', 'nm'):
            kw = dict(op[1])
            for q, c in (('n', 30), ('theta', 1)):
                if isinstance(kw.get(q), float):
                    kw[q] += kw[q] * c * d if q == 'n' else d
            out.append((k, kw))
    return out


def fresh(arg):
    """In a child of the zygote: every operation on a section of its own."""
    return [[outcome(build.section(spec, integ, **kw), o) for o in [op, *variants(op)]] for spec, integ, kw, op in arg]


# -- generation --------------------------------------------------------------
def bounded(r, sec, spec):
    c = sec.section_calculator
    lo, hi = float(c.n_min), float(c.n_max)
    return lo, hi


def an_op(r, spec, lo, hi, heavy=True):
    k = gen.pick(r, ['stress', 'stress', 'modulus', 'gross', 'limits', 'n_min', 'n_max', 'check', 'strength', 'strength',
                     'strength', 'mc', 'mc', 'nm', 'nmm', 'mm', 'profile', 'profile', 'cracked', 'balanced', 'curvature',
                     'pivot', 'bad'])
    th = theta_of(r)
    n = gen.pick(r, [0.0, lo + (hi - lo) * gen.uni(r, 0.05, 0.95), 0.3 * lo, lo * 1.5 - 1e3, hi * 1.5 + 1e3])
    inside = lo < n < hi
    if k in ('stress', 'modulus'):
        return (k, [float(v) for v in gen.strain_plane(r, spec)[1]])
    if k in ('gross', 'limits', 'n_min', 'n_max'):
        return (k,)
    if k == 'check':
        return (k, n)
    if k == 'strength':
        return (k, th, n)
    if k == 'mc':
        kw = dict(theta=th, n=n)
        if r.integers(2):
            kw.update(num_pre_yield=int(r.integers(1, 5)), num_post_yield=int(r.integers(1, 5)))
        else:
            sc = 0.004 / spec['size']
            kw['chi'] = [float(v) for v in -sc * np.abs(r.normal(size=int(r.integers(1, 4)))) * gen.logu(r, 0.1, 30)]
        return (k, kw)
    if k == 'nm':
        kw = dict(theta=th)
        if r.integers(2):
            kw.update(num_3=3, num_4=3, complete_domain=bool(r.integers(2)))
        if r.integers(6) == 0:
            kw['type_3'] = gen.pick(r, ['cubic', 'none', ''])
        if r.integers(6) == 0:
            kw['num'] = -3
        return (k, kw)
    if k == 'nmm':
        kw = dict(num_theta=gen.pick(r, [2, 3, 4, 4, -1]), num_3=3, num_4=2)
        if r.integers(5) == 0:
            kw['type_2'] = 'cubic'
        return (k, kw)
    if k == 'mm':
        return (k, dict(num_theta=gen.pick(r, [2, 3, 5, -2]), n=n))
    if k == 'profile':
        kw = dict(initial=bool(r.integers(2)))
        if r.integers(2):
            kw['max_iter'] = int(gen.pick(r, [0, 1, 2, 30, 60]))
        if r.integers(3) == 0:
            kw['tol'] = gen.pick(r, [1e-3, 1e-8])
        f = gen.pick(r, [0.01, 0.1, 0.4, 3.0])
        s = spec['size'] * max(abs(lo), abs(hi)) * 0.1
        return (k, (n if inside else 0.2 * lo, float(f * s * r.normal()), float(f * s * r.normal())), kw)
    if k == 'cracked':
        return (k, th)
    if k == 'balanced':
        return (k, bool(r.integers(2)))
    if k == 'pivot':
        return (k, n, bool(r.integers(2)))
    if k == 'curvature':
        return (k, n, float(-gen.logu(r, 1e-4, 2) * 0.004 / spec['size']), 0.0)
    return gen.pick(r, [('stress', [1e-4, 1e-8, 0.0], 'strain'), ('stress', [1e-4], 'stress'), ('strength', 'x', 0.0),
                        ('strength', th, None), ('mc', dict(theta=None, n=0.0)), ('nm', dict(theta='a')),
                        ('nm', dict(theta=th, num_1='b')), ('mc', dict(theta=th, n=0.0, chi=['q'])),
                        ('mc', dict(theta=th, n=0.0, num_pre_yield=0)), ('profile', (0.0, 'm', 0.0), {}),
                        ('curvature', 0.0, 'k', 0.0), ('cracked', 'x')])


ROTATES = ('strength', 'mc', 'mm')


def compare(ctx, mon, got, exp, spec, rotated, forces, w, key):
    """forces: scale of the axial force."""
    exp, *others = exp
    L = spec['size']
    if exp[0] == 'exc' or got[0] == 'exc':
        ok = exp[0] == got[0] and exp[1] == got[1]
        if key == 'profile' and exp[0] == got[0] and diverges(exp) and diverges(got):
            ok = True  # a search that diverges ends in either way
        if not ok and key == 'profile' and 'LinAlgError' in (exp[1], got[1]) and singular(spec, w):
            ctx.ev('unstable-call')
            return
        if not ok and any(o[:2] != exp[:2] and (o[0] == 'ok' or exp[0] == 'ok') for o in others):
            ctx.ev('unstable-call')
            return
        ctx.check('same-error', ok, key=key + ':error', msg=f'after history {str(got)[:400]} fresh {str(exp)[:400]}', **w)
        return
    g, e = got[1], exp[1]
    if not ctx.check(mon, sorted(g) == sorted(e), key=key + ':fields', msg=f'{sorted(g)} {sorted(e)}', **w):
        return
    for f in e:
        if g[f].shape == e[f].shape and np.array_equal(g[f], e[f], equal_nan=True):
            ctx.ev('mon:' + mon)
            ctx.ev('bit-equal')
            continue
        a = np.max(np.abs(e[f])) if e[f].size else 0.0
        if key in DIRECT:
            # round-off of sums only
            atol = 1e-11 * a + (1e-12 * forces * max(L, 1.0) if f in ('f', 'n') else 0)
        else:
            # one step of a search which stops at an unbalance of 1e-2
            atol = (1e-10 if key == 'profile' else 1e-8) * a
            sc = {'m_y': L, 'm_z': L, 'n': 1.0, 'forces': L}.get(f)
            if sc:
                atol += 5e-2 * sc + 1e-10 * forces * sc
            if f in ('chi_y', 'chi_z'):
                atol += 1e-8 * max(np.max(np.abs(e[q])) for q in ('chi_y', 'chi_z') if e[q].size)
        if any(o[0] != 'ok' or o[1][f].shape != e[f].shape for o in others):
            ctx.ev('unstable-call')
            continue
        spread = [np.max(np.abs(o[1][f] - e[f])) for o in others if e[f].size]
        atol += 10 * max(spread, default=0.0)
        ctx.close(mon, g[f], e[f], 0, atol, key=f'{key}:{f}', **w)


def diverges(o):
    return o[1] in ('LinAlgError', 'StopIteration') or (o[1] == 'ValueError' and 'infs or NaNs' in o[2])


def singular(spec, w):
    """The elastic stiffness is singular up to round-off."""
    o = outcome(build.section(spec, w['integrator'], **w['mesh']), ('modulus', [0.0, 0.0, 0.0]))
    if o[0] != 'ok':
        return False
    K = o[1]['K']
    d = np.sqrt(np.abs(np.diag(K)))
    return bool(np.any(d == 0) or np.linalg.cond(K / d[:, None] / d) > 1e11)


DIRECT = ('stress', 'modulus', 'limits', 'n_min', 'n_max', 'gross', 'balanced')


class Fault:
    """Make a call inside of the analysis raise."""

    def __init__(self, r, sec):
        self.sec, self.calc = sec, sec.section_calculator
        self.where = gen.pick(r, ['integrator', 'integrator', 'law', 'rotate'])
        self.k = int(gen.pick(r, [1, 1, 2, 3, 5, 8, 13, 21, 40]))
        self.exc = gen.pick(r, [Injected, InjectedExit])
        self.count, self.hit = 0, False

    def wrap(self, fn):
        def inner(*a, **k):
            self.count += 1
            if self.count == self.k:
                self.hit = True
                raise self.exc('injected')
            return fn(*a, **k)
        return inner

    def __enter__(self):
        self.undo = []

        def put(obj, name):
            setattr(obj, name, self.wrap(getattr(obj, name)))
            self.undo.append((obj, name))

        if self.where == 'integrator':
            put(self.calc.integrator, 'integrate_strain_response_on_geometry')
        elif self.where == 'law':
            g = self.sec.geometry
            seen = set()
            for p in list(g.geometries) + list(g.point_geometries):
                law = p.material.constitutive_law
                if id(law) not in seen:
                    seen.add(id(law))
                    put(law, gen_pick_law(self.k))
        else:
            put(self.sec.geometry, 'rotate')
        return self

    def __exit__(self, *a):
        for obj, name in self.undo:
            delattr(obj, name)
        return False


def gen_pick_law(k):
    return ['get_stress', 'get_ultimate_strain', 'get_tangent'][k % 3]


def a_spec(r):
    if r.integers(3) == 0:
        spec = gen.mixed_section(r, poly_only=bool(r.integers(2)))
        return spec
    return case(r, bool(r.integers(2)))[1]


def history(ctx, nops, fault=False, twin=False):
    r = ctx.rng
    z = zygote(fresh)
    secs = []
    spec = a_spec(r)
    spec.setdefault('size', float(np.max(np.ptp(gen.all_xy(spec), axis=0))))

    def integ():
        k = gen.pick(r, ['marin', 'fiber', 'fiber'])
        return k, ({} if k == 'marin' else dict(mesh_size=gen.pick(r, [0.01, 0.02, 0.05, 0.2, 1.0])))

    def add(spec, geo=None):
        k, kw = integ()
        if geo is None:
            geo = build.geometry(spec)
        s = GenericSection(geo, integrator=k, **kw)
        secs.append((spec, k, kw, s, geo))

    add(spec)
    if twin:
        how = gen.pick(r, ['same geometry', 'same geometry', 'same materials', 'other', 'sibling', 'sibling', 'sibling'])
        if how == 'same geometry':
            add(spec, secs[0][4])
        elif how == 'same materials':
            mats = {}
            for part in list(secs[0][4].geometries) + list(secs[0][4].point_geometries):
                mats[id(part)] = part.material
            g = secs[0][4]
            add(spec, CompoundGeometry([p for p in list(g.geometries) + list(g.point_geometries)]))
        elif how == 'sibling':
            # looks alike, differs in one thing: same integrator and mesh
            what, o = gen.sibling(r, spec)
            ctx.ev('sibling:' + what)
            k, kw = secs[0][1:3]
            g = build.geometry(o)
            secs.append((o, k, kw, GenericSection(g, integrator=k, **kw), g))
        else:
            o = a_spec(r)
            o.setdefault('size', float(np.max(np.ptp(gen.all_xy(o), axis=0))))
            add(o)
    # limits by a section which takes no part in the history
    lims = []
    for sp, k, kw, s, g in secs:
        c = build.section(sp).section_calculator
        v, e = ctx.attempt('limits', c.calculate_limit_axial_load)
        if e is not None or not np.all(np.isfinite(v)):
            v = (-1e6, 1e6)
        lims.append((float(min(v)), float(max(v))))
    seq, rot = [], [False] * len(secs)
    plan = []
    for _ in range(nops):
        i = int(r.integers(len(secs)))
        op = an_op(r, secs[i][0], *lims[i])
        if plan and r.integers(2):
            # the kind of the call before, with other arguments
            for _ in range(40):
                if op[0] == plan[-1][1][0]:
                    break
                op = an_op(r, secs[i][0], *lims[i])
        if plan and r.integers(5) == 0:  # once more
            i, op = plan[-1][:2]
        plan.append((i, op, bool(fault and r.integers(2))))
    probes = []
    for i in range(len(secs)):
        sp = secs[i][0]
        st = [float(v) for v in gen.strain_plane(r, sp)[1]]
        st = [0.0003 * np.sign(st[0]) if st[0] else 1e-4, 1e-3 / sp['size'] * r.normal(), 1e-3 / sp['size'] * r.normal()]
        probes += [(i, ('stress', [float(v) for v in st]), False), (i, ('modulus', [float(v) for v in st]), False),
                   (i, ('strength', theta_of(r), 0.0), False), (i, ('gross',), False)]
        lo, hi = lims[i]
        m = 0.05 * sp['size'] * max(abs(lo), abs(hi)) * r.normal(size=2)
        probes.append((i, ('profile', (lo * gen.uni(r, 0, 0.4), float(m[0]), float(m[1])),
                           dict(max_iter=int(gen.pick(r, [4, 10, 40])), tol=gen.pick(r, [1e-3, 1e-6]))), False))
    todo = plan + probes
    exp = []
    for i, op, _ in todo:  # every call in a process of its own
        st, q = z.ask([(*secs[i][:3], op)])
        if st != 'ok':
            ctx.ev('reference-' + st)
            raise RuntimeError(f'reference process: {q}')
        exp += q
    for j, ((i, op, flt), e) in enumerate(zip(todo, exp)):
        sp, k, kw, s, g = secs[i]
        w = dict(spec=sp, integrator=k, mesh=kw, history=seq[-12:], op=op, section=i)
        ctx.ev('op:' + op[0])
        if flt:
            with Fault(r, s) as f:
                try:
                    got = outcome(s, op)
                    swallowed = True
                except (Injected, InjectedExit):
                    swallowed = False
            seq.append((i, op[0], 'fault', f.where, f.k, f.exc.__name__, f.hit))
            if op[0] in ROTATES:
                rot[i] = True
            if f.hit:
                ctx.ev('faults-hit')
                ctx.check('fault-propagates', not swallowed, key='fault-swallowed', msg=f'{op[0]} {f.where} {f.k}', **w)
            elif swallowed:
                compare(ctx, 'same-result', got, e, sp, rot[i], max(map(abs, lims[i])), w, op[0])
            continue
        got = outcome(s, op)
        mon = 'probe' if j >= len(plan) else 'same-result'
        compare(ctx, mon, got, e, sp, rot[i], max(map(abs, lims[i])), w, op[0])
        if op[0] in ROTATES:
            rot[i] = True
        seq.append((i, op if len(str(op)) < 200 else op[0], got[0] if got[0] == 'ok' else got[1]))
        ctx.ev('outcome:' + got[0])
    ctx.sig('h', desc(spec), [(s[1], s[2].get('mesh_size')) for s in secs], [(i, op[0], f) for i, op, f in todo])
    ctx.note(desc=desc(spec), ops=[o[0] for _, o, _ in todo])


@M.family(130, 3000, timeout=200)
def sequences(ctx):
    """One section, calls and failing calls."""
    history(ctx, int(ctx.rng.integers(2, 9)))


@M.family(140, 2500, timeout=200)
def interleaved(ctx):
    """Two sections which share geometries or materials."""
    history(ctx, int(ctx.rng.integers(3, 9)), twin=True)


@M.family(110, 2500, timeout=200)
def faults(ctx):
    """Exceptions injected into the calls of the analyses."""
    history(ctx, int(ctx.rng.integers(2, 6)), fault=True, twin=bool(ctx.rng.integers(3) == 0))
