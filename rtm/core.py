"""Core of the runtime-monitoring harness.

A *property module* (rtm/props/cXX.py) registers families of workloads.  A
case is (family, index); its random stream is derived from
(property, family, VERIF_SEED, index) only, so every case can be replayed
alone.  While a case runs, monitors record events and compare what the real
code did with an oracle; failures are deduplicated by mechanism key.

Verdicts are three valued: exit 1 with VIOLATION lines, exit 0 when held on
what was observed, exit 2 (inconclusive) when the deciding monitors were not
reached often enough, the harness itself failed, or a watchdog fired.
"""

from __future__ import annotations

import collections
import hashlib
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTM_REPO', '/repo')
PKG = os.path.join(REPO, 'structuralcodes')
NWORKERS = int(os.environ.get('RTM_WORKERS', '8'))


class CaseAbort(Exception):
    """The case cannot continue (a violation was already recorded)."""


class CaseSkip(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(Exception):
    """Watchdog of one case."""


def _jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:300]


class Ctx:
    """What one case sees: its random stream, monitors and counters."""

    def __init__(self, prop, tier, seed, family, index):
        import numpy as np

        self.prop, self.tier, self.seed = prop, tier, seed
        self.family, self.index = family, index
        self.rng = np.random.default_rng(
            [zlib.crc32(prop.encode()), zlib.crc32(family.encode()), seed, index]
        )
        self.events = collections.Counter()
        self.sigs = set()
        self.violations = []
        self.sample = None
        self.describe = {}

    # -- observation ----------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """Declare this observation as distinct and non-trivial."""
        h = hashlib.blake2b(
            repr([_sigpart(p) for p in parts]).encode(), digest_size=8
        ).hexdigest()
        self.sigs.add(h)

    def note(self, **kw):
        self.describe.update(kw)

    # -- verdicts -------------------------------------------------------
    def fail(self, key, msg='', **witness):
        if len(self.violations) < 50:
            self.violations.append(
                {
                    'key': key,
                    'message': str(msg)[:1500],
                    'witness': _jsonable({**self.describe, **witness}),
                }
            )

    def check(self, monitor, cond, key=None, msg='', **witness):
        self.events['mon:' + monitor] += 1
        if not bool(cond):
            self.fail(key or monitor, msg, **witness)
            return False
        return True

    def close(
        self, monitor, got, exp, rtol=1e-9, atol=0.0, key=None, msg='', **witness
    ):
        """|got-exp| <= atol + rtol*|exp| elementwise, same shape."""
        import numpy as np

        self.events['mon:' + monitor] += 1
        try:
            if np.iscomplexobj(np.asarray(got)):
                raise TypeError('complex number')
            g = np.asarray(got, dtype=float)
            e = np.asarray(exp, dtype=float)
        except Exception as ex:  # noqa: BLE001
            self.fail(key or monitor, f'not numeric: {got!r} {ex!r}', **witness)
            return False
        if g.shape != e.shape:
            self.fail(
                key or monitor,
                f'{msg} shape {g.shape} expected {e.shape}: {got!r} vs {exp!r}',
                **witness,
            )
            return False
        tol = np.asarray(atol, dtype=float) + rtol * np.abs(e)
        with np.errstate(all='ignore'):
            both_nan = np.isnan(g) & np.isnan(e)
            same_inf = np.isinf(g) & (g == e)
            ok = (np.abs(g - e) <= tol) | both_nan | same_inf
        if not np.all(ok):
            with np.errstate(all='ignore'):
                self.fail(
                    key or monitor,
                    f'{msg} got {g.tolist()!r} expected {e.tolist()!r} '
                    f'tol {np.max(tol):.3e} diff {np.nanmax(np.abs(g - e)):.3e}',
                    **witness,
                )
            return False
        return True

    def call(self, label, fn, *args, **kw):
        """Call the code under test; an exception is a violation."""
        self.events['call:' + label] += 1
        try:
            return fn(*args, **kw)
        except (CaseTimeout, CaseAbort, CaseSkip):
            raise
        except Exception as ex:  # noqa: BLE001
            self.fail(
                f'raises:{label}:{type(ex).__name__}',
                f'{label} raised {ex!r} at {lib_site(ex)}',
                args=args,
                kwargs=kw,
            )
            raise CaseAbort from ex

    def attempt(self, label, fn, *args, **kw):
        """(value, None) or (None, exception)."""
        self.events['call:' + label] += 1
        try:
            return fn(*args, **kw), None
        except (CaseTimeout, CaseAbort, CaseSkip):
            raise
        except Exception as ex:  # noqa: BLE001
            self.events[f'raised:{label}:{type(ex).__name__}'] += 1
            return None, ex

    def rejects(self, monitor, label, fn, *args, exc=(ValueError,), key=None, **kw):
        """The call must raise one of exc."""
        self.events['mon:' + monitor] += 1
        try:
            r = fn(*args, **kw)
        except exc:
            return True
        except (CaseTimeout, CaseAbort, CaseSkip):
            raise
        except Exception as ex:  # noqa: BLE001
            self.fail(
                key or f'{monitor}:{label}',
                f'{label} raised {ex!r} instead of {exc}',
                args=args,
                kwargs=kw,
            )
            return False
        self.fail(
            key or f'{monitor}:{label}',
            f'{label} accepted an inadmissible argument and returned {r!r}',
            args=args,
            kwargs=kw,
        )
        return False


def _sigpart(p):
    import numpy as np

    if isinstance(p, (float, np.floating)):
        return float(f'{float(p):.6g}')
    if isinstance(p, (list, tuple)):
        return [_sigpart(q) for q in p]
    if isinstance(p, np.ndarray):
        return [_sigpart(q) for q in p.ravel().tolist()]
    if isinstance(p, np.integer):
        return int(p)
    return p if isinstance(p, (int, str, bool, type(None))) else repr(p)


def lib_site(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(PKG):
            return f'{os.path.relpath(fr.filename, REPO)}:{fr.name}'
    return None


# ---------------------------------------------------------------------------
class Family:
    def __init__(self, name, fn, quick, thorough, timeout):
        self.name, self.fn = name, fn
        self.quick, self.thorough, self.timeout = quick, thorough, timeout


class Module:
    """Registry a property module fills in."""

    def __init__(self, prop, rule, required=None, assumptions=()):
        self.prop, self.rule = prop, rule
        self.families = {}
        self.required = required or {}
        self.assumptions = list(assumptions)

    def family(self, quick, thorough=None, timeout=120, name=None):
        def deco(fn):
            nm = name or fn.__name__
            self.families[nm] = Family(
                nm, fn, quick, quick * 8 if thorough is None else thorough, timeout
            )
            return fn

        return deco


def load(prop) -> Module:
    return importlib.import_module(f'rtm.props.{prop.lower()}').M


def _alarm(*_):
    raise CaseTimeout


def run_one(mod: Module, tier, seed, family, index):
    fam = mod.families[family]
    ctx = Ctx(mod.prop, tier, seed, family, index)
    status = 'ok'
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np

            with np.errstate(all='ignore'):
                fam.fn(ctx)
    except CaseAbort:
        status = 'abort'
    except CaseSkip:
        status = 'skip'
    except CaseTimeout:
        status = 'timeout'
    except Exception as ex:  # noqa: BLE001
        site = lib_site(ex)
        if site is not None:
            status = 'libraise'
            ctx.fail(
                f'raises:{family}:{site}:{type(ex).__name__}',
                f'unexpected {ex!r}\n' + traceback.format_exc()[-1200:],
            )
        else:
            status = 'harness'
            ctx.describe['traceback'] = traceback.format_exc()[-2500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx, status


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)  # PR_SET_PDEATHSIG, SIGKILL


def _worker(args):
    prop, tier, seed, items = args
    mod = load(prop)
    out = {
        'events': collections.Counter(),
        'sigs': set(),
        'status': collections.Counter(),
        'viol': [],
        'harness': [],
        'timeouts': [],
        'samples': [],
        'fam': collections.Counter(),
    }
    for fam, i in items:
        ctx, st = run_one(mod, tier, seed, fam, i)
        out['events'].update(ctx.events)
        out['sigs'] |= {fam[:3] + s for s in ctx.sigs}
        out['status'][st] += 1
        out['fam'][fam] += 1
        for v in ctx.violations:
            v = dict(v)
            v['family'], v['index'] = fam, i
            out['viol'].append(v)
        if st == 'harness':
            out['harness'].append((fam, i, ctx.describe.get('traceback')))
        if st == 'timeout':
            out['timeouts'].append((fam, i))
        if ctx.describe and len(out['samples']) < 2 and st == 'ok':
            out['samples'].append(
                {'family': fam, 'index': i, **_jsonable(ctx.describe)}
            )
    return out


def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    data = json.load(open(p))
    return {
        e['key']: e
        for e in data.get('findings', [])
        if e['property'] == prop and e.get('status') == 'known'
    }


def main(prop, tier, seed, replay=None):
    t0 = time.time()
    mod = load(prop)
    edir = os.path.join(ROOT, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if replay:
        d = json.load(open(replay))
        ctx, st = run_one(mod, d['tier'], d['seed'], d['family'], d['index'])
        print('status', st, 'events', dict(ctx.events))
        if st == 'harness':
            print(ctx.describe.get('traceback'))
        for v in ctx.violations:
            print(json.dumps(v, indent=1)[:4000])
        hit = [v for v in ctx.violations if v['key'] == d['key']]
        if hit:
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        return 0 if st in ('ok', 'skip') else 2

    items = []
    for f in mod.families.values():
        n = f.quick if tier == 'quick' else f.thorough
        items += [(f.name, i) for i in range(n)]
    # deterministic interleaving so that chunks have similar cost
    items.sort(key=lambda x: zlib.crc32(f'{x[0]}/{x[1]}'.encode()))
    nchunk = max(1, min(len(items), NWORKERS * (6 if tier == 'quick' else 40)))
    chunks = [items[k::nchunk] for k in range(nchunk)]
    deadline = float(
        os.environ.get('RTM_DEADLINE', '780' if tier == 'quick' else '14400')
    )
    agg = {
        'events': collections.Counter(),
        'sigs': set(),
        'status': collections.Counter(),
        'fam': collections.Counter(),
        'viol': [],
        'harness': [],
        'timeouts': [],
        'samples': [],
    }
    broken = None
    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing as mp

    ex = ProcessPoolExecutor(NWORKERS, mp_context=mp.get_context('fork'),
                             initializer=_die_with_parent)
    futs = [ex.submit(_worker, (prop, tier, seed, c)) for c in chunks]
    try:
        for fu in as_completed(futs, timeout=deadline):
            o = fu.result()
            for k in ('events', 'status', 'fam'):
                agg[k].update(o[k])
            agg['sigs'] |= o['sigs']
            for k in ('viol', 'harness', 'timeouts', 'samples'):
                agg[k] += o[k]
    except BaseException as e:  # noqa: BLE001
        broken = repr(e)
        for p in list((ex._processes or {}).values()):
            p.kill()
    ex.shutdown(wait=False, cancel_futures=True)

    known = known_findings(prop)
    bykey = {}
    for v in sorted(agg['viol'], key=lambda v: (v['family'], v['index'])):
        bykey.setdefault(v['key'], []).append(v)
    new = {k: v for k, v in bykey.items() if k not in known}
    seenk = {k: v for k, v in bykey.items() if k in known}
    for k, e in known.items():
        if k in seenk:
            print(f'KNOWN-FINDING: property={prop} {e["what"]}')
    shown = 0
    for k, vs in sorted(new.items(), key=lambda kv: -len(kv[1])):
        v = vs[0]
        rp = os.path.join(
            rdir, f'{prop}-{hashlib.blake2b(k.encode(), digest_size=5).hexdigest()}.json'
        )
        with open(rp, 'w') as fh:
            json.dump(
                {
                    'property': prop,
                    'tier': tier,
                    'seed': seed,
                    **v,
                    'hits': len(vs),
                    'cmd': f'python3 check.py {prop} --replay {rp}',
                },
                fh,
                indent=1,
            )
        if shown < 12:
            print(f'# {k} ({len(vs)} hits) case {v["family"]}/{v["index"]}: '
                  f'{v["message"][:400]}')
            print(f'VIOLATION property={prop} replay={rp}')
        shown += 1
    samples = agg['samples']
    step = max(1, len(samples) // 6)
    ncase = sum(agg['fam'].values())
    missing = {
        m: (agg['events'].get(m, 0), need)
        for m, need in mod.required.items()
        if agg['events'].get(m, 0) < need
    }
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': ncase,
            'distinct_nontrivial': len(agg['sigs']),
            'rule': mod.rule,
            'samples': samples[::step][:6] or [{'note': 'no sample recorded'}],
            'cases_per_family': dict(agg['fam']),
            'case_status': dict(agg['status']),
            'monitor_evaluations': {
                k[4:]: v for k, v in sorted(agg['events'].items()) if k[:4] == 'mon:'
            },
            'observed_events': {
                k: v for k, v in sorted(agg['events'].items()) if k[:4] != 'mon:'
            },
            'known_findings_seen': {k: len(v) for k, v in seenk.items()},
            'violation_keys': {k: len(v) for k, v in new.items()},
        },
        'assumptions': mod.assumptions
        or ['sampled executions only: held on the observed runs, not proved'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(edir, f'{prop}.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
    nmon = sum(v for k, v in agg['events'].items() if k[:4] == 'mon:')
    print(
        f'{prop} {tier} seed={seed}: {ncase} cases {dict(agg["status"])}, '
        f'{nmon} monitor evaluations, {len(agg["sigs"])} distinct non-trivial, '
        f'{len(new)} violation keys, {evidence["wall_s"]} s'
    )
    if new:
        return 1
    rc = 0
    if broken:
        print('INCONCLUSIVE: workers ended early:', broken)
        rc = 2
    for fam, i, tb in agg['harness'][:3]:
        print(f'HARNESS-ERROR {fam}/{i}\n{tb}')
        rc = 2
    if len(agg['timeouts']) > max(2, ncase // 100):
        print('INCONCLUSIVE: case watchdog fired', agg['timeouts'][:10])
        rc = 2
    if missing:
        print('INCONCLUSIVE: monitors not reached (got, needed):', missing)
        rc = 2
    return rc
