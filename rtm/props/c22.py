"""C22: creep and shrinkage functions."""
import math
import warnings

import numpy as np

from structuralcodes.codes import ec2_2004 as e4, ec2_2023 as e23, mc2010 as mc

from ..core import Module
from ..formulas import C, Fn, I, K, L, U, continuous, monotone, watch
from .c21 import FNS as FNS21

M = Module(
    'C22',
    'every creep and shrinkage function of the codes plus whole chains from '
    'concrete, cement, humidity, size and ages to strains and coefficients, '
    'times before, at, just after and long after the start, scalars, lists '
    'and arrays; oracle: own transcription; non-trivial = distinct (function '
    'or chain, value to 3 digits)',
    required={'mon:value': 2000, 'mon:kinds': 500, 'mon:pure': 500, 'mon:arrays': 300,
              'mon:reject': 100, 'mon:warn': 100, 'mon:monotone': 100, 'mon:start': 100,
              'mon:limit': 100, 'mon:chain': 500, 'mon:continuous': 50},
)

FCM = U(16, 98, 35, 28, 38, 48, 58)
FCM_MC = U(20, 130, 20, 35, 130)
H0 = U(40, 1500, 100, 200, 300, 500)
RH = U(20, 100, 40, 50, 80, 99, 100)
T0 = L(1, 5000, 1, 7, 28)
TS = L(0.5, 200, 1, 3, 7)


def after(name):
    """A time around, at or after the named start."""
    def s(r, a):
        b = a[name]
        k = int(r.integers(8))
        if k == 0:
            return b
        if k == 1:
            return b * float(r.uniform(0, 1))
        if k == 2:
            return math.nextafter(b, math.inf)
        if k == 3:
            return float(math.ceil(b + r.uniform(0, 100)))
        return b + float(math.exp(r.uniform(-4, 11)))
    return s


def signed(s):
    def q(r, a):
        v = s(r, a)
        return -v if r.integers(3) == 0 else v
    return q


AC = {'R': 1.0, 'N': 0.0, 'S': -1.0}
DS1 = {'R': 6, 'N': 4, 'S': 3}
DS2 = {'R': 0.11, 'N': 0.12, 'S': 0.13}
CEM = C('R', 'N', 'S', 'r', 'n', 's')
MCEM = C('32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R')
#              alpha  bs  ds1  ds2
MCT = {'32.5 N': (-1, 800, 3, 0.013), '32.5 R': (0, 700, 4, 0.012), '42.5 N': (0, 700, 4, 0.012),
       '42.5 R': (1, 600, 6, 0.012), '52.5 N': (1, 600, 6, 0.012), '52.5 R': (1, 600, 6, 0.012)}


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] * (1 - t) + ys[i + 1] * t
    return ys[-1]


# ----------------------------------------------------------------- EC2:2004
def kh4(h_0):
    return lin(h_0, [100, 200, 300, 500], [1.0, 0.85, 0.75, 0.7])


def bds4(t, t_s, h_0):
    d = max(t - t_s, 0.0)
    return d / (d + 0.04 * math.sqrt(h_0 ** 3))


def ecd0(alpha_ds1, alpha_ds2, fcm, beta_RH, fcm_0=10):
    return 0.85 * (220 + 110 * alpha_ds1) * math.exp(-alpha_ds2 * fcm / fcm_0) * 1e-6 * beta_RH


def brh4(RH, RH_0=100):
    return 1.55 * (1 - (RH / RH_0) ** 3)


def bas4(t):
    return 1 - math.exp(-0.2 * math.sqrt(t))


def phirh4(h_0, fcm, RH, alpha_1, alpha_2):
    q = (1 - RH / 100) / (0.1 * h_0 ** (1 / 3))
    return 1 + q if fcm <= 35 else (1 + q * alpha_1) * alpha_2


def bH4(h_0, fcm, RH, alpha_3):
    a = 1.0 if fcm <= 35 else alpha_3
    return min(1.5 * (1 + (0.012 * RH) ** 18) * h_0 + 250 * a, 1500 * a)


def bc4(t0, t, beta_H):
    d = max(t - t0, 0.0)
    return (d / (beta_H + d)) ** 0.3


def adj(t0, alpha):
    return max(t0 * (9 / (2 + t0 ** 1.2) + 1) ** alpha, 0.5)


def tT(T, dt):
    return math.exp(13.65 - 4000 / (273 + T)) * dt


def al(p):
    return lambda fcm: (35 / fcm) ** p


# ------------------------------------------------------------------- MC2010
def rh_mc(rh):
    return rh / 100 if rh > 1 else rh


def brh(rh, beta_s1):
    return 0.25 if rh_mc(rh) >= 0.99 * beta_s1 else -1.55 * (1 - rh_mc(rh) ** 3)


def bds(time, ts, notional_size):
    d = max(time - ts, 0.0)
    return math.sqrt(d / (0.035 * notional_size ** 2 + d))


def bbc(time, t0, t0_adj):
    return math.log((30 / t0_adj + 0.035) ** 2 * max(time - t0, 0.0) + 1)


def bdc(time, t0, beta_h, gamma_t0):
    d = max(time - t0, 0.0)
    return (d / (beta_h + d)) ** gamma_t0


def ref_phi(phi_bc, phi_dc, sigma, fcm):
    k = abs(sigma) / fcm
    return (phi_bc + phi_dc) * (math.exp(1.5 * (k - 0.4)) if k > 0.4 else 1.0)


RHMC = C('fraction', 'percent')


def rh_sample(r, a):
    v = float(r.uniform(0.4, 1))
    k = int(r.integers(6))
    if k == 0:
        v = float(r.choice([0.4, 0.5, 0.8, 0.99, 1.0]))
    return v if r.integers(2) else min(100.0, max(40.0, 100 * v))


def sig_sample(r, a):
    f = a['fcm']
    k = float(r.choice([0, 0.4, 0.6])) if r.integers(5) == 0 else float(r.uniform(0, 0.6))
    return k * f * float(r.choice([-1, 1]))


def near_limit(a):
    k = abs(a['sigma']) / a['fcm']
    return k > 0.6 or 0.4 < k < 0.4 + 1e-9


BAD_RH = [dict(rh=U(0, 0.3999)), dict(rh=U(1.0001, 39.99)), dict(rh=U(100.01, 200)), dict(rh=U(-100, -0.01))]
BADC = (KeyError, ValueError)
UNKNOWN = C('', 'X', '62.5 N', '42.5', 'N')


def mismatch():
    """Kinds of temperature histories that must be refused."""
    return [(20.0, [1.0, 2.0]), ([20.0, 10.0], 1.0), ([20.0, 10.0], [1.0, 2.0, 3.0]),
            (np.array([20.0]), 2.0), (np.ones((2, 2)), np.ones(4))]


FNS = [
    Fn(e4.eps_cs, lambda eps_cd, eps_ca: eps_cd + eps_ca, arr=('eps_cd', 'eps_ca'),
       eps_cd=U(0, 1e-3, 0), eps_ca=U(0, 3e-4, 0)),
    Fn(e4.eps_cd, lambda beta_ds, k_h, eps_cd_0: beta_ds * k_h * eps_cd_0, arr=('beta_ds',),
       beta_ds=U(0, 1, 0, 1), k_h=U(0.7, 1), eps_cd_0=U(0, 1e-3)),
    Fn(e4.beta_ds, bds4, arr=('t',), t_s=TS, t=after('t_s'), h_0=H0),
    Fn(e4.k_h, kh4, h_0=H0),
    Fn(e4.eps_cd_0, ecd0, opt=('fcm_0',), alpha_ds1=C(3, 4, 6), alpha_ds2=C(0.11, 0.12, 0.13), fcm=FCM,
       beta_RH=U(0, 1.55), fcm_0=U(5, 15, 10)),
    Fn(e4.alpha_ds1, lambda cement_class: DS1[cement_class.upper().strip()], cement_class=CEM,
       reject=[dict(cement_class=C('', 'X', 'RN', '42.5'))]),
    Fn(e4.alpha_ds2, lambda cement_class: DS2[cement_class.upper().strip()], cement_class=CEM,
       reject=[dict(cement_class=C('', 'X', 'RN', '42.5'))]),
    Fn(e4.alpha_cement, lambda cement_class: AC[cement_class.upper().strip()], cement_class=CEM,
       reject=[dict(cement_class=C('', 'X', 'RN', '42.5'))]),
    Fn(e4.beta_RH, brh4, opt=('RH_0',), RH=RH, RH_0=K(100)),
    Fn(e4.eps_ca, lambda beta_as, eps_ca_inf: beta_as * eps_ca_inf, arr=('beta_as',),
       beta_as=U(0, 1, 0, 1), eps_ca_inf=U(0, 3e-4)),
    Fn(e4.eps_ca_inf, lambda fck: 2.5 * (fck - 10) * 1e-6, fck=U(12, 90, 12)),
    Fn(e4.beta_as, bas4, arr=('t',), t=L(0.01, 1e5, 0, 28)),
    Fn(e4.phi, lambda phi_0, beta_c: phi_0 * beta_c, arr=('beta_c',), phi_0=U(0.3, 8), beta_c=U(0, 1, 0, 1)),
    Fn(e4.phi_0, lambda phi_RH, beta_fcm, beta_t0: phi_RH * beta_fcm * beta_t0, phi_RH=U(0.8, 4),
       beta_fcm=U(1.5, 5), beta_t0=U(0.1, 1)),
    Fn(e4.phi_RH, phirh4, h_0=H0, fcm=FCM, RH=RH, alpha_1=U(0.4, 1), alpha_2=U(0.8, 1)),
    Fn(e4.beta_fcm, lambda fcm: 16.8 / math.sqrt(fcm), fcm=FCM),
    Fn(e4.beta_t0, lambda t0: 1 / (0.1 + t0 ** 0.2), t0=L(0.5, 1e4, 1, 28)),
    Fn(e4.h_0, lambda Ac, u: 2 * Ac / u, Ac=L(1e3, 1e7), u=L(100, 1e5)),
    Fn(e4.beta_c, bc4, arr=('t',), t0=T0, t=after('t0'), beta_H=U(250, 1500, 1500)),
    Fn(e4.beta_H, bH4, h_0=H0, fcm=FCM, RH=RH, alpha_3=U(0.5, 1)),
    Fn(e4.alpha_1, al(0.7), fcm=FCM), Fn(e4.alpha_2, al(0.2), fcm=FCM), Fn(e4.alpha_3, al(0.5), fcm=FCM),
    Fn(e4.t0_adj, lambda t0, alpha_cement: adj(t0, alpha_cement), t0=L(0.05, 1e4, 0.5, 1, 28),
       alpha_cement=C(-1.0, 0.0, 1.0)),
    Fn(e4.t_T, tT, T=U(-20, 80, 0, 20), dt=L(0.01, 1e4, 1)),
    # ------------------------------------------------------------- MC2010
    Fn(mc.t_T, lambda T_cur, dt: tT(T_cur, dt), T_cur=U(-20, 80, 0, 20), dt=L(0.01, 1e4, 1)),
    Fn(mc.t0_adj, lambda t_T, cem_class: adj(t_T, MCT[cem_class][0]), t_T=L(0.05, 1e4, 0.5, 1, 28), cem_class=MCEM,
       exc=BADC, reject=[dict(cem_class=UNKNOWN)]),
    Fn(mc.eps_cds0, lambda fcm, cem_class: (220 + 110 * MCT[cem_class][2]) * math.exp(-MCT[cem_class][3] * fcm) * 1e-6,
       fcm=FCM_MC, cem_class=MCEM, exc=BADC, reject=[dict(cem_class=UNKNOWN)]),
    Fn(mc.beta_ds, bds, arr=('time',), ts=TS, time=after('ts'), notional_size=H0),
    Fn(mc.beta_s1, lambda fcm: min((35 / fcm) ** 0.1, 1.0), fcm=FCM_MC),
    Fn(mc.beta_RH, brh, rh=rh_sample, beta_s1=U(0.87, 1, 1), reject=BAD_RH),
    Fn(mc.eps_cds, lambda eps_cds0, beta_ds, beta_rh: eps_cds0 * beta_ds * beta_rh, arr=('beta_ds',),
       eps_cds0=U(1e-4, 1e-3), beta_ds=U(0, 1, 0, 1), beta_rh=U(-1.55, 0.25, 0.25)),
    Fn(mc.eps_cbs0, lambda fcm, cem_class: -MCT[cem_class][1] * (0.1 * fcm / (6 + 0.1 * fcm)) ** 2.5 * 1e-6,
       fcm=FCM_MC, cem_class=MCEM, exc=BADC, reject=[dict(cem_class=UNKNOWN)]),
    Fn(mc.beta_bs, lambda time: bas4(time), arr=('time',), time=L(0.01, 1e5, 0, 28)),
    Fn(mc.eps_cbs, lambda eps_cbs0, beta_bs: eps_cbs0 * beta_bs, arr=('beta_bs',), eps_cbs0=U(-4e-4, 0),
       beta_bs=U(0, 1, 0, 1)),
    Fn(mc.beta_bc_fcm, lambda fcm: 1.8 / fcm ** 0.7, fcm=FCM_MC),
    Fn(mc.beta_bc_t, bbc, arr=('time',), t0=T0, time=after('t0'), t0_adj=L(0.5, 1e4, 28)),
    Fn(mc.phi_bc, lambda beta_bc_fcm, beta_bc_t: beta_bc_fcm * beta_bc_t, arr=('beta_bc_t',),
       beta_bc_fcm=U(0.05, 0.3), beta_bc_t=U(0, 15, 0)),
    Fn(mc.beta_dc_fcm, lambda fcm: 412 / fcm ** 1.4, fcm=FCM_MC),
    Fn(mc.beta_dc_RH, lambda rh, notional_size: (1 - rh_mc(rh)) / (0.1 * notional_size / 100) ** (1 / 3),
       atol=1e-15, rh=rh_sample, notional_size=H0, reject=BAD_RH),
    Fn(mc.beta_dc_t0, lambda t0_adj: 1 / (0.1 + t0_adj ** 0.2), t0_adj=L(0.5, 1e4, 28)),
    Fn(mc.alpha_fcm, lambda fcm: math.sqrt(35 / fcm), fcm=FCM_MC),
    Fn(mc.beta_h, lambda notional_size, alpha_fcm: min(1.5 * notional_size + 250 * alpha_fcm, 1500 * alpha_fcm),
       notional_size=H0, alpha_fcm=U(0.5, 1.4, 1)),
    Fn(mc.gamma_t0, lambda t0_adj: 1 / (2.3 + 3.5 / math.sqrt(t0_adj)), t0_adj=L(0.5, 1e4, 28)),
    Fn(mc.beta_dc_t, bdc, arr=('time',), t0=T0, time=after('t0'), beta_h=U(250, 1500), gamma_t0=U(0.13, 0.43)),
    Fn(mc.phi_dc, lambda beta_dc_fcm, beta_dc_RH, beta_dc_t0, beta_dc_t: beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t,
       arr=('beta_dc_t',), beta_dc_fcm=U(0.4, 6), beta_dc_RH=U(0, 1.5), beta_dc_t0=U(0.1, 1), beta_dc_t=U(0, 1, 0, 1)),
    Fn(mc.k_sigma, lambda sigma, fcm: abs(sigma) / fcm, fcm=FCM_MC, sigma=sig_sample, skip=near_limit,
       warn=lambda a: abs(a['sigma']) > 0.4 * a['fcm'],
       reject=[dict(fcm=40.0, sigma=signed(U(24.001, 60)))]),
    Fn(mc.phi, ref_phi, arr=('phi_bc', 'phi_dc'), phi_bc=U(0, 2, 0), phi_dc=U(0, 6, 0), fcm=FCM_MC, sigma=sig_sample,
       skip=near_limit, warn=lambda a: abs(a['sigma']) > 0.4 * a['fcm'],
       reject=[dict(fcm=40.0, sigma=signed(U(24.001, 60)))]),
    Fn(mc.calc_J, lambda E_ci_t0, phi, E_ci: 1 / E_ci_t0 + phi / E_ci, arr=('phi',), E_ci_t0=U(1.5e4, 5e4),
       phi=U(0, 8, 0), E_ci=U(2e4, 5e4)),
] + [f for f in FNS21 if f.name in ('ec2_2023.phi_50y_t0', 'ec2_2023.eps_cs_50y', 'ec2_2023.A_phi_correction_exp',
                                    'ec2_2023.phi_correction_factor', 'ec2_2023.hn')]


@M.family(quick=500 * len(FNS), thorough=3000 * len(FNS), timeout=60)
def values(ctx):
    watch(ctx, FNS[ctx.index % len(FNS)], n=30)


@M.family(quick=400, thorough=4000)
def histories(ctx):
    """Temperature histories: sums over intervals, refusals."""
    r = ctx.rng
    n = int(r.integers(1, 9))
    T, dt = r.uniform(-20, 80, n), np.exp(r.uniform(-3, 6, n))
    for m in (e4, mc):
        exp = math.fsum(tT(a, b) for a, b in zip(T, dt))
        nm = m.__name__.split('.')[-1]
        for form in (np.array, list, tuple):
            got = ctx.call('t_T', m.t_T, form(T), form(dt))
            ctx.close('chain', got, exp, rtol=1e-12, key=f't_T:{nm}')
        ctx.close('chain', ctx.call('t_T', m.t_T, T.reshape(1, -1), dt.reshape(1, -1)), exp, rtol=1e-12, key=f't_T:{nm}')
        i = int(r.integers(n))
        two = m.t_T(float(T[i]), float(dt[i]))
        half = 2 * m.t_T(float(T[i]), float(dt[i] / 2))
        ctx.close('chain', two, half, rtol=1e-12, key=f't_T:additive:{nm}')
        for a, b in mismatch():
            ctx.rejects('reject', 't_T', m.t_T, a, b, key=f'reject:t_T:{nm}')
    ctx.sig('t_T', n, round(float(T[0])))


def series(r, start):
    """Times around and after start."""
    t = np.concatenate([start * r.uniform(0, 1, 3), [start, math.nextafter(start, math.inf)],
                        start + np.exp(r.uniform(-6, 12, 20))])
    return np.sort(t)


def observe(ctx, nm, fn, start, sense, zero=True, limit=None, ltol=1e-3):
    """Time function: scalar and array agreement, start, monotony, limit."""
    r = ctx.rng
    t = series(r, start)
    arr = np.asarray(ctx.call(nm, fn, t.copy()), dtype=float)
    one = np.array([float(ctx.call(nm, fn, float(x))) for x in t])
    ctx.check('chain', arr.shape == t.shape and bool(np.allclose(arr, one, rtol=1e-12, atol=1e-300)),
              f'array:{nm}', f'{nm}: array {arr.tolist()!r}, one by one {one.tolist()!r}', t=t.tolist())
    if zero:
        ctx.check('start', bool(np.all(one[t <= start] == 0)), f'start:{nm}', f'{nm} is not zero up to the start',
                  t=t[t <= start].tolist(), values=one[t <= start].tolist())
    monotone(ctx, nm, fn, t, sense)
    if limit is not None:
        v = float(fn(1e15))
        ctx.check('limit', abs(v - limit) <= ltol * abs(limit) + 1e-300, f'limit:{nm}',
                  f'{nm} tends to {v}, notional value {limit}')
        ctx.check('limit', bool(np.all(np.abs(one) <= abs(limit) * (1 + 1e-9))), f'beyond:{nm}',
                  f'{nm} exceeds the notional value', limit=limit, values=one.tolist())
    return t, one


@M.family(quick=3000, thorough=8000)
def ec2004(ctx):
    """The whole annex B / 3.1.4 chain."""
    r = ctx.rng
    fck = float(r.uniform(12, 90))
    fcm = fck + 8 if r.integers(4) else 35.0
    cem = str(r.choice(['R', 'N', 'S']))
    rh = float(r.uniform(20, 100))
    Ac, u = float(np.exp(r.uniform(8, 15))), float(np.exp(r.uniform(5, 9)))
    t0, ts = float(np.exp(r.uniform(0, 7))), float(np.exp(r.uniform(-0.5, 5)))
    T = float(r.uniform(0, 60))
    h0 = e4.h_0(Ac, u)
    a = al(0.7)(fcm), al(0.2)(fcm), al(0.5)(fcm)
    ta = e4.t0_adj(e4.t_T(T, t0), e4.alpha_cement(cem))
    p0 = e4.phi_0(e4.phi_RH(h0, fcm, rh, e4.alpha_1(fcm), e4.alpha_2(fcm)), e4.beta_fcm(fcm), e4.beta_t0(ta))
    bH = e4.beta_H(h0, fcm, rh, e4.alpha_3(fcm))
    phi = lambda t: e4.phi(p0, e4.beta_c(t0, t, bH))  # noqa: E731
    r0 = phirh4(2 * Ac / u, fcm, rh, *a[:2]) * 16.8 / math.sqrt(fcm) / (0.1 + adj(tT(T, t0), AC[cem]) ** 0.2)
    rH = bH4(2 * Ac / u, fcm, rh, a[2])
    t, v = observe(ctx, 'ec2_2004 creep', phi, t0, +1, limit=r0)
    for x, y in zip(t, v):
        ctx.close('chain', y, r0 * bc4(t0, x, rH), rtol=1e-9, atol=1e-14, key='creep:ec2_2004')
    ctx.sig('creep4', round(float(v[-1]), 3))
    e0 = e4.eps_cd_0(e4.alpha_ds1(cem), e4.alpha_ds2(cem), fcm, e4.beta_RH(rh))
    cd = lambda t: e4.eps_cd(e4.beta_ds(t, ts, h0), e4.k_h(h0), e0)  # noqa: E731
    ca = lambda t: e4.eps_ca(e4.beta_as(t), e4.eps_ca_inf(fck))  # noqa: E731
    q0 = ecd0(DS1[cem], DS2[cem], fcm, brh4(rh)) * kh4(2 * Ac / u)
    t, v = observe(ctx, 'ec2_2004 drying', cd, ts, +1, limit=q0)
    for x, y in zip(t, v):
        ctx.close('chain', y, q0 * bds4(x, ts, 2 * Ac / u), rtol=1e-9, atol=1e-20, key='drying:ec2_2004')
    t2, w = observe(ctx, 'ec2_2004 autogenous', ca, 0.0, +1, limit=2.5e-6 * (fck - 10))
    tot = e4.eps_cs(cd(t), ca(t))
    ctx.check('chain', bool(np.allclose(tot, v + [2.5e-6 * (fck - 10) * bas4(x) for x in t], rtol=1e-9, atol=1e-20)),
              'total:ec2_2004', 'total shrinkage is not drying plus autogenous')
    # joins of the branches at 35 MPa and in the table of k_h
    continuous(ctx, 'phi_RH', lambda f: e4.phi_RH(h0, f, rh, e4.alpha_1(f), e4.alpha_2(f)), 35.0)
    continuous(ctx, 'beta_H', lambda f: e4.beta_H(h0, f, rh, e4.alpha_3(f)), 35.0)
    for h in (100, 200, 300, 500):
        continuous(ctx, 'k_h', e4.k_h, h)
    ctx.sig('shrink4', round(float(v[-1]) * 1e6, 1))


@M.family(quick=3000, thorough=8000)
def mc2010(ctx):
    r = ctx.rng
    fcm = float(r.uniform(20, 130))
    cem = str(r.choice(list(MCT)))
    A, bs_, d1, d2 = MCT[cem]
    pct = float(r.uniform(40, 100)) if r.integers(5) else float(r.choice([40, 50, 80, 98.9, 99, 100]))
    rh = pct if r.integers(2) else pct / 100
    h = float(r.uniform(40, 1500))
    t0, ts = float(np.exp(r.uniform(0, 7))), float(np.exp(r.uniform(-0.5, 5)))
    T = float(r.uniform(5, 60))
    sg = float(r.choice([0.2, 0.39, 0.45, 0.6 - 1e-9])) * fcm * float(r.choice([-1, 1]))
    tadj = mc.t0_adj(mc.t_T(T, t0), cem)
    q = adj(tT(T, t0), A)
    ctx.close('chain', tadj, q, rtol=1e-12, key='t0_adj')
    a = mc.alpha_fcm(fcm)
    bh, g = mc.beta_h(h, a), mc.gamma_t0(tadj)
    bc = lambda t: mc.phi_bc(mc.beta_bc_fcm(fcm), mc.beta_bc_t(t, t0, tadj))  # noqa: E731
    dc = lambda t: mc.phi_dc(mc.beta_dc_fcm(fcm), mc.beta_dc_RH(rh, h), mc.beta_dc_t0(tadj),  # noqa: E731
                             mc.beta_dc_t(t, t0, bh, g))

    def phi(t):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return mc.phi(bc(t), dc(t), sg, fcm)

    alpha = math.sqrt(35 / fcm)
    H = min(1.5 * h + 250 * alpha, 1500 * alpha)
    G = 1 / (2.3 + 3.5 / math.sqrt(q))
    D = 412 / fcm ** 1.4 * (1 - pct / 100) / (0.1 * h / 100) ** (1 / 3) / (0.1 + q ** 0.2)
    k = abs(sg) / fcm
    S = math.exp(1.5 * (k - 0.4)) if k > 0.4 else 1.0
    t, v = observe(ctx, 'mc2010 creep', phi, t0, +1)
    ref = [S * (1.8 / fcm ** 0.7 * bbc(x, t0, q) + D * bdc(x, t0, H, G)) for x in t]
    for y, z in zip(v, ref):
        ctx.close('chain', y, z, rtol=1e-9, atol=1e-13, key='creep:mc2010')
    observe(ctx, 'mc2010 drying creep', dc, t0, +1, limit=D if D > 1e-9 else None, ltol=2e-2)
    E0, E1 = float(r.uniform(1e4, 5e4)), float(r.uniform(1e4, 5e4))
    J = np.asarray(mc.calc_J(E0, phi(t), E1))
    ctx.check('chain', bool(np.allclose(J, 1 / E0 + np.array(ref) / E1, rtol=1e-9)), 'compliance:mc2010',
              'compliance function differs')
    monotone(ctx, 'compliance', lambda x: mc.calc_J(E0, phi(x), E1), t, +1)
    b1 = mc.beta_s1(fcm)
    bRH = mc.beta_RH(rh, b1)
    cds = lambda t: mc.eps_cds(mc.eps_cds0(fcm, cem), mc.beta_ds(t, ts, h), bRH)  # noqa: E731
    R = brh(pct, min((35 / fcm) ** 0.1, 1.0))
    if abs(pct / 100 - 0.99 * min((35 / fcm) ** 0.1, 1.0)) < 1e-9:
        R = bRH
    e0 = (220 + 110 * d1) * math.exp(-d2 * fcm) * 1e-6 * R
    t, v = observe(ctx, 'mc2010 drying shrinkage', cds, ts, 1 if R > 0 else -1, limit=e0)
    for x, y in zip(t, v):
        ctx.close('chain', y, e0 * bds(x, ts, h), rtol=1e-9, atol=1e-20, key='drying:mc2010')
    cbs = lambda t: mc.eps_cbs(mc.eps_cbs0(fcm, cem), mc.beta_bs(t))  # noqa: E731
    e1 = -bs_ * (0.1 * fcm / (6 + 0.1 * fcm)) ** 2.5 * 1e-6
    t, v = observe(ctx, 'mc2010 basic shrinkage', cbs, 0.0, -1, limit=e1)
    for x, y in zip(t, v):
        ctx.close('chain', y, e1 * bas4(x), rtol=1e-9, atol=1e-20, key='basic:mc2010')
    ctx.sig('mc', round(float(ref[-1]), 3), round(e0 * 1e6, 1))


@M.family(quick=400, thorough=4000)
def ec2023(ctx):
    """50-year values: directions of the tables, correction by strength."""
    r = ctx.rng
    cls = str(r.choice(['CS', 'CN', 'CR']))
    atm = str(r.choice(['dry', 'humid']))
    lo = {'CS': 3, 'CN': 1, 'CR': 1}[cls]
    t = np.sort(np.exp(r.uniform(math.log(lo), math.log(365), 12)))
    h = np.sort(r.uniform(100, 1000, 12))
    f = np.sort(r.uniform(*{'CS': (20, 50), 'CN': (20, 80), 'CR': (35, 80)}[cls], 12))
    i = int(r.integers(12))
    monotone(ctx, 'phi_50y(t0)', lambda x: e23.phi_50y_t0(x, atm, h[i], cls), t, -1)
    monotone(ctx, 'phi_50y(hn)', lambda x: e23.phi_50y_t0(t[i], atm, x, cls), h, -1)
    monotone(ctx, 'eps_cs_50y(hn)', lambda x: e23.eps_cs_50y(f[i], atm, x, cls), h, -1)
    p = e23.phi_50y_t0(t[i], 'dry', h[i], cls)
    q = e23.phi_50y_t0(t[i], 'humid', h[i], cls)
    ctx.check('chain', p >= q, 'dry<humid', 'less creep in dry air', t0=t[i], hn=h[i])
    for x in f:
        A = e23.A_phi_correction_exp(h[i], atm)
        c = e23.phi_correction_factor(x, A)
        ctx.check('chain', (c <= 1 + 1e-12) == (x >= 35), 'correction', 'wrong side of 1', fck=x, c=c)
    ctx.sig('23', round(float(p), 3))


EXTRA = []
