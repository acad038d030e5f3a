"""Independent reference models: constitutive laws and section integrals.

Nothing here uses structuralcodes.  Laws are given as plain dictionaries
(specs) so that the same description builds the real object (rtm.build) and
the reference (ref_law).
"""

from __future__ import annotations

import math

import numpy as np

GX, GW = np.polynomial.legendre.leggauss(10)
BIG = 100.0


class RefLaw:
    """stress(eps), tangent(eps), kinks, lims, poly (piecewise poly deg<=2)."""

    def __init__(self, s, t, kinks, lims, ylims, poly=True, peak=None, smooth_sub=1):
        self.s, self.t = s, t
        self.kinks = sorted(set(float(k) for k in kinks))
        self.lims, self.ylims = lims, ylims
        self.poly = poly  # Marin representation is exact
        self.sub = smooth_sub  # sub-divisions for the quadrature
        self.peak = peak
        self.snaps = [v for v in lims]  # strains the code may snap to

    def stress(self, e):
        return self.s(np.asarray(e, dtype=float))

    def tangent(self, e):
        return self.t(np.asarray(e, dtype=float))


def ref_law(sp) -> RefLaw:
    law = _ref_law(sp)
    if sp['kind'] == 'init':
        law.snaps = [*law.lims, *(q - sp['e0'] for q in ref_law(sp['law']).snaps)]
    elif sp['kind'] == 'par':
        law.snaps = [*law.lims, *(q for w in sp['laws'] for q in ref_law(w).snaps)]
    return law


def _ref_law(sp) -> RefLaw:
    k = sp['kind']
    if k == 'elastic':
        E = sp['E']
        u = sp.get('eps_u')
        lims = (
            (-100, 100)
            if u is None
            else (-abs(u), abs(u))
            if isinstance(u, float)
            else (min(u), max(u))
        )
        return RefLaw(
            lambda e: E * e, lambda e: E * np.ones_like(e), [], lims, lims
        )
    if k == 'ep':
        E, fy, Eh, su = sp['E'], sp['fy'], sp.get('Eh', 0.0), sp.get('eps_su')
        ey = fy / E

        def s(e):
            a = np.abs(e)
            r = np.where(a <= ey, E * a, fy + Eh * (a - ey)) * np.sign(e)
            return r if su is None else np.where(a > su, 0.0, r)

        def t(e):
            a = np.abs(e)
            r = np.where(a <= ey, E, Eh)
            return r if su is None else np.where(a > su, 0.0, r)

        lu = su if su is not None else 2 * ey
        kk = [-ey, ey] + ([-su, su] if su is not None else [])
        return RefLaw(s, t, kk, (-lu, lu), (-ey, ey))
    if k == 'pr':
        fc, e0, eu, n = sp['fc'], abs(sp['eps_0']), abs(sp['eps_u']), sp['n']
        fc = abs(fc)

        def s(e):
            x = np.clip(-e / e0, 0.0, 1.0)
            return np.where((e > 0) | (e < -eu), 0.0, -fc * (1 - (1 - x) ** n))

        def t(e):
            x = np.clip(-e / e0, 0.0, 1.0)
            v = n * fc / e0 * (1 - x) ** (n - 1)
            return np.where((e > 0) | (e < -e0), 0.0, v)

        return RefLaw(
            s, t, [0.0, -e0, -eu], (-eu, 100), (-e0, 100), poly=(n == 2), peak=fc,
            smooth_sub=1 if n == 2 else 6,
        )
    if k == 'bilin':
        fc, ec, eu = abs(sp['fc']), abs(sp['eps_c']), abs(sp['eps_cu'])
        E = fc / ec

        def s(e):
            return np.where((e > 0) | (e < -eu), 0.0, np.maximum(E * e, -fc))

        def t(e):
            return np.where((e <= 0) & (e > -ec), E, 0.0)

        return RefLaw(s, t, [0.0, -ec, -eu], (-eu, 100), (-ec, 100), peak=fc)
    if k == 'popovics':
        fc, ec, eu = abs(sp['fc']), abs(sp['eps_c']), abs(sp['eps_cu'])
        Ec = sp.get('Ec') or 5000 * math.sqrt(fc)
        n = Ec / (Ec - fc / ec)

        def s(e):
            x = np.maximum(-e / ec, 0.0)
            return np.where(
                (e > 0) | (e < -eu), 0.0, -fc * x * n / (n - 1 + x**n)
            )

        def t(e):
            x = np.maximum(-e / ec, 0.0)
            v = fc / ec * n * (n - 1) * (1 - x**n) / (n - 1 + x**n) ** 2
            return np.where((e > 0) | (e < -eu), 0.0, v)

        return RefLaw(
            s, t, [0.0, -eu], (-eu, 100), (-ec, 100), poly=False, peak=fc, smooth_sub=8
        )
    if k == 'sargin':
        fc, ec, eu, kk = abs(sp['fc']), abs(sp['eps_c1']), abs(sp['eps_cu1']), sp['k']

        def s(e):
            x = np.clip(-e / ec, 0.0, eu / ec)
            return np.where(
                (e > 0) | (e < -eu),
                0.0,
                -fc * (kk * x - x * x) / (1 + (kk - 2) * x),
            )

        def t(e):
            x = np.clip(-e / ec, 0.0, eu / ec)
            # d/dx of (k x - x^2)/(1+(k-2)x)
            den = 1 + (kk - 2) * x
            v = fc / ec * ((kk - 2 * x) * den - (kk * x - x * x) * (kk - 2)) / den**2
            return np.where((e > 0) | (e < -eu), 0.0, v)

        return RefLaw(
            s, t, [0.0, -eu], (-eu, 100), (-ec, 100), poly=False, peak=fc, smooth_sub=8
        )
    if k == 'user':
        x = np.asarray(sp['x'], dtype=float)
        y = np.asarray(sp['y'], dtype=float)
        if x.min() >= 0:  # odd reflection; the origin must belong to the data
            x = np.concatenate((-x[::-1][:-1], x))
            y = np.concatenate((-y[::-1][:-1], y))
        flag = sp.get('flag', 0)
        lims = (x[0], x[-1])
        x0, y0 = x, y

        def s(e):
            v = np.interp(e, x0, y0)
            lo, hi = e < x0[0], e > x0[-1]
            if flag == 0:
                v = np.where(lo | hi, 0.0, v)
            elif flag in (2, 3):
                sp_ = (
                    (y0[-1] - y0[-2]) / (x0[-1] - x0[-2])
                    if flag == 2
                    else y0[-1] / (x0[-1] or 1.0)
                )
                sn_ = (y0[1] - y0[0]) / (x0[1] - x0[0]) if flag == 2 else y0[0] / x0[0]
                v = np.where(hi, y0[-1] + sp_ * (e - x0[-1]), v)
                v = np.where(lo, y0[0] + sn_ * (e - x0[0]), v)
            if flag:
                v = np.where((e < 100 * x0[0]) | (e > 100 * x0[-1]), 0.0, v)
            return v

        def t(e):
            sl = np.diff(y0) / np.diff(x0)
            i = np.clip(np.searchsorted(x0, e) - 1, 0, len(sl) - 1)
            v = sl[i]
            lo, hi = e < x0[0], e > x0[-1]
            if flag in (0, 1):
                v = np.where(lo | hi, 0.0, v)
            elif flag == 3:
                v = np.where(hi, y0[-1] / (x0[-1] or 1.0), v)
                v = np.where(lo, y0[0] / x0[0], v)
            if flag:
                v = np.where((e < 100 * x0[0]) | (e > 100 * x0[-1]), 0.0, v)
            return v

        u = sp.get('eps_u')
        if u is not None:
            lims = (-abs(u), abs(u)) if isinstance(u, float) else (min(u), max(u))
        kk = list(x0) + ([100 * x0[0], 100 * x0[-1]] if flag else [])
        # a law that ends at zero has no extension on that side
        kk = [q for i, q in enumerate(kk) if q not in kk[:i]]
        return RefLaw(s, t, kk, lims, lims)
    if k == 'init':
        w = ref_law(sp['law'])
        e0 = sp['e0']
        lims = (w.lims[0] - e0, w.lims[1] - e0)
        yl = (w.ylims[0] - e0, w.ylims[1] - e0)
        if sp.get('compat', True):
            return RefLaw(
                lambda e: w.stress(e + e0),
                lambda e: w.tangent(e + e0),
                [q - e0 for q in w.kinks],
                lims,
                yl,
                poly=w.poly,
                peak=w.peak,
                smooth_sub=w.sub,
            )
        s0 = float(w.stress(np.array([e0]))[0])
        t0 = float(w.tangent(np.array([0.0]))[0]) * 1e-6
        return RefLaw(
            lambda e: np.full_like(e, s0),
            lambda e: np.full_like(e, t0),
            [],
            lims,
            yl,
            poly=True,
            peak=w.peak,
        )
    if k == 'trunc':
        w = ref_law(sp['law'])
        lo, hi = sp['lo'], sp['hi']

        def cut(f):
            return lambda e: np.where((e < lo) | (e > hi), 0.0, f(e))

        return RefLaw(
            cut(w.stress), cut(w.tangent), [lo, hi, *(q for q in w.kinks if lo < q < hi)],
            w.lims, w.ylims, poly=w.poly, peak=w.peak, smooth_sub=w.sub,
        )
    if k == 'par':
        ws = [ref_law(q) for q in sp['laws']]
        wt = sp.get('w') or [1.0] * len(ws)
        return RefLaw(
            lambda e: sum(a * w.stress(e) for a, w in zip(wt, ws)),
            lambda e: sum(a * w.tangent(e) for a, w in zip(wt, ws)),
            [q for w in ws for q in w.kinks],
            (min(w.lims[0] for w in ws), max(w.lims[1] for w in ws)),
            (min(w.ylims[0] for w in ws), max(w.ylims[1] for w in ws)),
            poly=all(w.poly for w in ws),
            peak=max([w.peak or 0.0 for w in ws]) or None,
            smooth_sub=max(w.sub for w in ws),
        )
    raise KeyError(k)


# ---------------------------------------------------------------------------
# polygons
def signed_area(r):
    r = np.asarray(r, dtype=float)
    x, y = r[:, 0], r[:, 1]
    x0, y0 = x[0], y[0]
    x, y = x - x0, y - y0
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def rings_of(surf):
    """[(ring, sign)]: exterior ccw +, holes ccw with sign -1."""
    out = []
    for r, sg in [(surf['ext'], 1.0)] + [(h, -1.0) for h in surf.get('holes', [])]:
        r = np.asarray(r, dtype=float)
        if signed_area(r) < 0:
            r = r[::-1]
        out.append((r, sg))
    return out


def _edge_integrals(ring, f, breaks, sub):
    """int over the ring's area of f(s), f(s)*s, f(s)*t, f s^2, f s t, f t^2.

    ring in (s, t) coordinates, ccw.  Green: int_A f(s) t^k dA =
    -oint f(s) t^(k+1)/(k+1) ds for a ccw boundary (s right, t up).
    """
    s0, t0 = ring[:, 0], ring[:, 1]
    s1, t1 = np.roll(s0, -1), np.roll(t0, -1)
    m = np.abs(s1 - s0) > 0
    s0, t0, s1, t1 = s0[m], t0[m], s1[m], t1[m]
    if s0.size == 0:
        return np.zeros(6)
    lo, hi = np.minimum(s0, s1), np.maximum(s0, s1)
    sgn = np.sign(s1 - s0)
    b = np.asarray(sorted(breaks), dtype=float)
    nodes = np.concatenate(
        [lo[:, None], np.clip(b[None, :], lo[:, None], hi[:, None]), hi[:, None]],
        axis=1,
    )
    a, c = nodes[:, :-1], nodes[:, 1:]
    if sub > 1:
        fr = np.linspace(0, 1, sub + 1)
        aa = a[:, :, None] + (c - a)[:, :, None] * fr[None, None, :-1]
        cc = a[:, :, None] + (c - a)[:, :, None] * fr[None, None, 1:]
        a, c = aa.reshape(len(lo), -1), cc.reshape(len(lo), -1)
    h = 0.5 * (c - a)
    x = 0.5 * (a + c)[:, :, None] + h[:, :, None] * GX[None, None, :]
    w = h[:, :, None] * GW[None, None, :] * sgn[:, None, None]
    slope = (t1 - t0) / (s1 - s0)
    t = t0[:, None, None] + slope[:, None, None] * (x - s0[:, None, None])
    fv = f(x) * w
    return -np.array(
        [
            np.sum(fv * t),
            np.sum(fv * t * x),
            np.sum(fv * t * t) / 2,
            np.sum(fv * t * x * x),
            np.sum(fv * t * t * x) / 2,
            np.sum(fv * t**3) / 3,
        ]
    )


def section_integral(surfs, points, strain, what='stress'):
    """surfs: [(surf dict, RefLaw)], points: [(y, z, A, RefLaw)].

    Returns for 'stress' (N, My, Mz) and for 'modulus' the 3x3 matrix, plus
    the magnitudes (the same integrals of absolute values, upper bounds) used
    to scale round-off tolerances.
    """
    e0, ky, kz = [float(v) for v in strain]
    kap = math.hypot(ky, kz)
    F = np.zeros(6)  # f, f y, f z, f y2, f yz, f z2
    G = np.zeros(6)
    for surf, law in surfs:
        fun = law.stress if what == 'stress' else law.tangent
        if kap == 0:
            u = np.array([0.0, 1.0])
            v0 = float(fun(np.array([e0]))[0])
            f = lambda s: np.full_like(s, v0)  # noqa: E731
            br = []
            sub = 1
        else:
            u = np.array([-kz, ky]) / kap
            f = lambda s: fun(e0 + kap * s)  # noqa: E731
            br = [(q - e0) / kap for q in law.kinks]
            sub = law.sub
        # (s, t) frame: s = u.x ; t = n.x with n = rot90(u) -> right handed
        n = np.array([-u[1], u[0]])
        tot = np.zeros(6)
        mag = np.zeros(6)
        for ring, sg in rings_of(surf):
            c = ring.mean(axis=0)
            loc = ring - c
            st = np.column_stack((loc @ u, loc @ n))
            so = float(c @ u)
            ff = (lambda s, f=f, so=so: f(s + so))
            q = _edge_integrals(st, ff, [bb - so for bb in br], sub)
            # back to y, z: x = c + s u + t n
            i0, is_, it, iss, ist, itt = q
            I1 = is_ * u + it * n
            I2 = (
                iss * np.outer(u, u)
                + ist * (np.outer(u, n) + np.outer(n, u))
                + itt * np.outer(n, n)
            )
            m1 = i0 * c + I1
            m2 = i0 * np.outer(c, c) + np.outer(c, I1) + np.outer(I1, c) + I2
            tot += sg * np.array([i0, m1[0], m1[1], m2[0, 0], m2[0, 1], m2[1, 1]])
            A = abs(signed_area(ring))
            sv = st[:, 0] + so
            grid = np.concatenate((np.linspace(sv.min(), sv.max(), 33), br)) if br else sv
            grid = np.clip(grid, sv.min(), sv.max())
            pk = float(np.max(np.abs(f(grid)))) if kap else abs(v0)
            r = float(np.max(np.abs(ring)))
            mag += pk * A * np.array([1, r, r, r * r, r * r, r * r])
        F += tot
        G += mag
    for y, z, A, law in points:
        fun = law.stress if what == 'stress' else law.tangent
        v = float(fun(np.array([e0 + ky * z - kz * y]))[0]) * A
        F += v * np.array([1, y, z, y * y, y * z, z * z])
        G += abs(v) * np.abs([1, y, z, y * y, y * z, z * z])
    if what == 'stress':
        return np.array([F[0], F[2], -F[1]]), np.array([G[0], G[2], G[1]])
    K = np.array(
        [[F[0], F[2], -F[1]], [F[2], F[5], -F[4]], [-F[1], -F[4], F[3]]]
    )
    KG = np.array([[G[0], G[2], G[1]], [G[2], G[5], G[4]], [G[1], G[4], G[3]]])
    return K, KG


def poly_moments(surf):
    """Exact A, Sy(int y), Sz(int z), int y2, int yz, int z2 of a surface."""
    law = RefLaw(
        lambda e: np.ones_like(e), lambda e: np.ones_like(e), [], (-1, 1), (-1, 1)
    )
    K, _ = section_integral([(surf, law)], [], (0.0, 0.0, 0.0), 'modulus')
    return dict(
        A=K[0, 0], y=-K[0, 2], z=K[0, 1], yy=K[2, 2], zz=K[1, 1], yz=-K[1, 2]
    )
