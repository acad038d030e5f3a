"""Shared monitors for the code-formula functions (C21-C24).

A Fn pairs a public function with an independent reference written from the
code text, samplers for its arguments and the inputs it must refuse.
"""
from __future__ import annotations

import inspect
import math
import warnings

import numpy as np

from .core import CaseAbort


# ---------------------------------------------------------------- samplers
def U(lo, hi, *special):
    """Uniform on [lo, hi]; sometimes a special value or its neighbours."""
    def s(r, a):
        k = r.random()
        if special and k < 0.3:
            v = float(special[int(r.integers(len(special)))])
            w = int(r.integers(4))
            if w == 1:
                v = math.nextafter(v, math.inf)
            elif w == 2:
                v = math.nextafter(v, -math.inf)
            return min(max(v, lo), hi)
        if k < 0.45:
            v = float(round(r.uniform(lo, hi)))
            return min(max(v, lo), hi)
        return float(r.uniform(lo, hi))
    s.domain = (lo, hi)
    return s


def L(lo, hi, *special):
    """Log-uniform."""
    def s(r, a):
        if special and r.random() < 0.3:
            return float(special[int(r.integers(len(special)))])
        return float(math.exp(r.uniform(math.log(lo), math.log(hi))))
    s.domain = (lo, hi)
    return s


def C(*choices):
    return lambda r, a: choices[int(r.integers(len(choices)))]


def I(lo, hi):
    return lambda r, a: int(r.integers(lo, hi + 1))


def K(v):
    return lambda r, a: v


class Tracked(dict):
    def __init__(self, used):
        self.reads = used

    def __getitem__(self, k):
        self.reads.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.reads.add(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.reads.add(k)
        return dict.__contains__(self, k)

    def items(self):
        self.reads.update(self)
        return dict.items(self)

    def values(self):
        self.reads.update(self)
        return dict.values(self)

    def keys(self):
        self.reads.update(self)
        return dict.keys(self)


class Fn:
    """One public function under observation.

    args    name -> sampler(rng, earlier args)
    opt     names that may be omitted (the reference has its own default)
    arr     names that accept arrays (all given arrays of one shape)
    reject  list of dicts of overriding argument values/samplers that must
            raise one of exc
    warn    predicate(args) -> must a warning be issued (None: not checked)
    wrong   (key, known wrong reference): a recorded finding
    skip    predicate(args): outside the claim
    """

    def __init__(self, fn, ref, rtol=1e-9, atol=0.0, opt=(), arr=(), reject=(), exc=(ValueError,),
                 warn=None, wrong=None, skip=None, name=None, within=None, ints=True, joint=(), **args):
        self.fn, self.ref, self.args = fn, ref, args
        self.rtol, self.atol, self.opt, self.arr = rtol, atol, tuple(opt), tuple(arr)
        self.reject, self.exc, self.warn, self.wrong = list(reject), exc, warn, wrong
        self.skip, self.within, self.ints = skip, within, ints
        self.used, self.full = set(), {}  # arguments other samplers look at
        self.joint = joint  # arguments drawn together only
        mod = fn.__module__.split('.')
        self.name = name or f'{mod[2]}.{fn.__name__}'

    def near(self, r, a):
        """The arguments a with one of them drawn anew."""
        free = [k for k in self.args if k in a and k not in self.used and k not in self.joint]
        if not free:
            return self.sample(r)
        for _ in range(20):
            k = free[int(r.integers(len(free)))]
            b = dict(a)
            b[k] = self.args[k](r, {**self.full, **a})
            if self.skip is None or not self.skip(b):
                return b
        return self.sample(r)

    def sample(self, r):
        for _ in range(200):
            a = Tracked(self.used)
            for k, s in self.args.items():
                a[k] = s(r, a)
            a = self.full = dict(a)
            b = {k: v for k, v in a.items() if not (k in self.opt and r.random() < 0.35)}
            if self.skip is None or not self.skip(b):
                return b
        raise RuntimeError(f'no admissible sample for {self.name}')


def flat(v):
    if isinstance(v, dict):
        return np.array([float(v[k]) for k in sorted(v)])
    if isinstance(v, (tuple, list)):
        return np.array([float(x) for x in v])
    return np.atleast_1d(np.asarray(v, dtype=float))


def agree(got, exp, rtol, atol):
    if isinstance(got, complex) or (isinstance(got, np.ndarray) and got.dtype.kind == 'c'):
        return False
    if isinstance(exp, dict) and (not isinstance(got, dict) or sorted(got) != sorted(exp)):
        return False
    if isinstance(exp, (bool, np.bool_)):
        return bool(got) == bool(exp)
    try:
        g, e = flat(got), flat(exp)
    except (TypeError, ValueError):
        return False
    if g.shape != e.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(g - e) <= atol + rtol * np.abs(e)) | (g == e)
                           | (np.isnan(g) & np.isnan(e))))


def same(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    try:
        return np.array_equal(flat(a), flat(b), equal_nan=True)
    except (TypeError, ValueError):
        return a == b


def watch(ctx, f: Fn, n=30):
    """One case: n sampled calls of one function under every monitor."""
    r = ctx.rng
    seen = []
    sig = inspect.signature(f.fn)
    names = list(sig.parameters)
    ctx.note(function=f.name)
    a = None
    for _ in range(n):
        a = f.near(r, a) if a is not None and r.integers(3) == 0 else f.sample(r)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            try:
                got = f.fn(**a)
            except Exception as ex:  # noqa: BLE001
                ctx.check('value', False, f'raises:{f.name}:{type(ex).__name__}',
                          f'{f.name} raised {ex!r} for admissible arguments', args=a)
                continue
        exp = f.ref(**a) if f.within is None else None
        if f.warn is not None:
            w = f.warn(a)
            if w is not None:
                ctx.check('warn', bool(rec) == bool(w), f'warn:{f.name}',
                          f'{f.name}: warning {"missing" if w else "unexpected"}', args=a)
        if f.within is not None:
            lo, hi = f.within(**a)
            g = float(got)
            okay = lo - 1e-9 * abs(lo) <= g <= hi + 1e-9 * abs(hi)
            exp = (lo, hi)
        else:
            okay = agree(got, exp, f.rtol, f.atol)
        if f.wrong is not None and not okay:
            key, wref = f.wrong
            known = agree(got, wref(**a), f.rtol, f.atol)
            ctx.check('value', False, key if known else f'value:{f.name}',
                      f'{f.name} returned {got!r}, the code gives {exp!r}', args=a)
        else:
            ctx.check('value', okay, f'value:{f.name}',
                      f'{f.name} returned {got!r}, the code gives {exp!r}', args=a)
        seen.append((a, got))
        q = np.ravel(flat(got)) if not isinstance(got, bool) else [got]
        ctx.sig(f.name, [float(f'{float(x):.3g}') for x in q][:2])
        # positional call and other number types give the same value
        kind = int(r.integers(4))
        b = dict(a)
        pos = []
        if kind == 0:
            for k in names:
                if k not in b:
                    break
                pos.append(b.pop(k))
        elif kind == 1:
            b = {k: np.float64(v) if type(v) is float else v for k, v in b.items()}
        elif kind == 2 and f.ints:
            b = {k: int(v) if type(v) is float and v == int(v) else v for k, v in b.items()}
        else:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                alt = f.fn(*pos, **b)
            ctx.check('kinds', agree(alt, got, 1e-12, 1e-300), f'kind:{f.name}',
                      f'{f.name}: {got!r} by keyword, {alt!r} otherwise', args=a, kind=kind)
        except Exception as ex:  # noqa: BLE001
            ctx.check('kinds', False, f'kind:{f.name}', f'{f.name} raised {ex!r}', args=a, kind=kind)
    # repeated in another order: the function has no memory
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in r.permutation(len(seen))[:10]:
            a, got = seen[i]
            try:
                ctx.check('pure', same(f.fn(**a), got), f'pure:{f.name}',
                          f'{f.name}: another value when repeated', args=a)
            except Exception as ex:  # noqa: BLE001
                ctx.check('pure', False, f'pure:{f.name}', f'{f.name} raised {ex!r} when repeated', args=a)
        if f.arr:
            arrays(ctx, f)
        for bad in f.reject:
            a = f.sample(r)
            for k in f.opt:          # overridden arguments must be present
                a.pop(k, None)
            for k, v in bad.items():
                a[k] = v(r, a) if callable(v) else v
            ctx.rejects('reject', f.name, f.fn, exc=f.exc, key=f'reject:{f.name}:{",".join(bad)}', **a)


def arrays(ctx, f: Fn):
    r = ctx.rng
    for form in range(3):
        m = int(r.integers(1, 7))
        base = f.sample(r)
        rows = [f.sample(r) for _ in range(m)]
        which = [k for k in f.arr if k in base]
        rows = [{**base, **{k: q[k] for k in which if k in q}} for q in rows]
        rows = [q for q in rows if f.skip is None or not f.skip(q)]
        if not rows or not which:
            continue
        a = dict(base)
        for k in which:
            v = np.array([q[k] for q in rows], dtype=float)
            a[k] = v.tolist() if form == 1 else v.reshape(1, -1) if form == 2 and len(rows) > 1 else v
        keep = {k: np.array(a[k], copy=True) for k in which}
        try:
            got = f.fn(**a)
            single = [float(f.fn(**q)) for q in rows]
        except Exception as ex:  # noqa: BLE001
            ctx.check('arrays', False, f'array:{f.name}',
                      f'{f.name} raised {ex!r} for array arguments', args=a)
            continue
        shape = keep[which[0]].shape
        g = np.asarray(got, dtype=float) if not np.iscomplexobj(got) else np.array([np.nan])
        okay = g.shape == shape and agree(g.ravel(), single, 1e-12, 1e-300)
        ctx.check('arrays', okay, f'array:{f.name}',
                  f'{f.name}: {np.asarray(got).tolist()!r} for arrays, {single!r} one by one', args=a)
        ctx.check('arrays', all(np.array_equal(np.asarray(a[k]), keep[k]) for k in which),
                  f'mutates:{f.name}', f'{f.name} changed its array argument', args=keep)


def monotone(ctx, label, fn, xs, sense, tol=1e-12, **w):
    """fn is monotone along xs (sense +1 growing, -1 falling)."""
    v = np.array([float(fn(x)) for x in xs])
    d = np.diff(v) * sense
    ctx.check('monotone', bool(np.all(np.isfinite(v))) and bool(np.all(d >= -tol * np.max(np.abs(v)))),
              f'monotone:{label}', f'{label} is not monotone', xs=list(map(float, xs)), values=v.tolist(), **w)
    return v


def continuous(ctx, label, fn, x, rtol=1e-6, **w):
    """fn joins at x from both sides."""
    h = 1e-9 * max(abs(x), 1e-6)
    a, b, c = float(fn(x - h)), float(fn(x)), float(fn(x + h))
    ctx.check('continuous', max(abs(a - b), abs(b - c)) <= rtol * max(abs(b), 1e-300),
              f'continuous:{label}', f'{label} jumps at {x}: {a}, {b}, {c}', **w)


def all_public(mods, fns, extra=()):
    """Names exported by the modules that no Fn observes."""
    have = {id(f.fn) for f in fns} | {id(e) for e in extra}
    out = []
    for m in mods:
        for n in m.__all__:
            if id(getattr(m, n)) not in have:
                out.append(f'{m.__name__.split(".")[-1]}.{n}')
    return out


__all__ = ['C', 'CaseAbort', 'Fn', 'I', 'K', 'L', 'U', 'all_public', 'arrays', 'continuous',
           'monotone', 'watch']
