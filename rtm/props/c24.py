"""C24: crack control, restraint and deflection functions."""
import math

import numpy as np

from structuralcodes.codes import ec2_2004 as e4, ec2_2023 as e23

from ..core import Module
from ..formulas import C, Fn, I, K, L, U, monotone, watch
from .c21 import cell, ref_fcm, ref_fctm_23

M = Module(
    'C24',
    'every crack-control, restraint and deflection function of EC2:2004, '
    'EN 1992-3 and EC2:2023 on both sides of every limit, table points, '
    'interpolated and out-of-scope entries, and compositions; oracle: own '
    'transcription of formulas and tables; non-trivial = distinct (function, '
    'value to 3 digits)',
    required={'mon:value': 2000, 'mon:kinds': 500, 'mon:pure': 500, 'mon:reject': 300,
              'mon:table': 300, 'mon:compose': 500, 'mon:monotone': 100, 'mon:limit': 300},
)

NEG = U(-1e3, -1e-6)


def neg(*names):
    return [{n: NEG} for n in names]


EXP_04 = {'X0': .4, 'XC1': .4, 'XC2': .3, 'XC3': .3, 'XC4': .3, 'XD1': .3, 'XD2': .3, 'XS1': .3,
          'XS2': .3, 'XS3': .3}
ALLX = C(*[v for k in EXP_04 for v in (k, k.lower(), f' {k} ')])
PREX = C('X0', 'XC1', 'XC2', 'XC3', 'XC4', 'xc3', ' x0')

KC, KK = U(0, 1, 0, 1, 0.4), U(0.65, 1, 0.65, 1)
FCT = U(0.5, 6, 2.9)
ES = U(1.9e5, 2.1e5, 2e5)
ASMIN = dict(A_ct=L(1e3, 1e7), sigma_s=U(20, 500), fct_eff=FCT, k=KK, kc=KC)
BAD_AS = [dict(A_ct=U(-10, 0, 0)), dict(sigma_s=NEG), dict(k=U(0, 0.6499)), dict(k=U(1.0001, 2)),
          dict(kc=U(-1, -1e-6)), dict(kc=U(1.0001, 2))]


def lerp(x, a, b, ya, yb):
    return ya + (x - a) / (b - a) * (yb - ya)


def ref_k(h):
    return 1.0 if h <= 300 else 0.65 if h >= 800 else lerp(h, 300, 800, 1, 0.65)


def ref_kc(h, b, fct_eff, N_ed):
    hs = min(h, 1000)
    k1 = 1.5 if N_ed >= 0 else 2 * hs / (3 * h)
    v = 0.4 * (1 - (N_ed * 1e3 / (b * h)) / (k1 * (h / hs) * fct_eff))
    return min(max(v, 0.0), 1.0)


def ref_xi1(xi, phi_p, phi_s):
    return math.sqrt(xi * phi_s / phi_p) if phi_s > 0 else math.sqrt(xi)


def ref_asp(A_ct, sigma_s, fct_eff, k, kc, Ap, phi_s, phi_p, xi, delta_s):
    return (kc * k * fct_eff * A_ct - ref_xi1(xi, phi_p, phi_s) * Ap * delta_s) / sigma_s


def ref_eps(sigma_s, alpha_e, rho_p_eff, kt, fct_eff, Es):
    return max(sigma_s - kt * fct_eff / rho_p_eff * (1 + alpha_e * rho_p_eff), 0.6 * sigma_s) / Es


def ref_srmax(c, phi, rho_p_eff, k1, k2, k3=3.4, k4=0.425):
    k3 = 3.4 if k3 is None else k3
    k4 = 0.425 if k4 is None else k4
    return k3 * c + k1 * k2 * k4 * phi / rho_p_eff


BASE = dict(h=L(60, 3000), d=lambda r, a: a['h'] * float(r.choice([1.0, 0.9]) if r.integers(3) == 0 else r.uniform(0.5, 1)),
            x=lambda r, a: a['h'] * float(r.choice([0, 1]) if r.integers(4) == 0 else r.uniform(0, 1)))

# ----------------------------------------------------------------- EC2:2023


def kh(b, h):
    return min(max(0.8 - 0.6 * (min(b, h) - 0.3), 0.5), 0.8)


def asy(NEd, b, h, fct_eff, fyk):
    top = 0.5 * kh(b, h) * fct_eff * b * h / fyk
    a = min(max((0.3 * NEd / 1e3 + 0.2 * kh(b, h) * fct_eff * b * h) / fyk, 0), top)
    t = NEd / 1e3 / fyk - a
    return a * 1e4, min(max(t, 0), a) * 1e4


def ac(fcm):
    return max(1 / (0.8 + 0.2 * fcm / 88), 1.0)


def eceff(fcm, phi, kE=9500):
    return ac(fcm) * kE * fcm ** (1 / 3) / (1 + phi)


def eps23(sigma_s, kt, fct_eff, rho_eff, alphae, Es):
    return max(sigma_s - kt * fct_eff / rho_eff * (1 + alphae * rho_eff), (1 - kt) * sigma_s) / Es


def kfl(h, xg, hceff):
    return max(0.5 * (1 + (h - xg - hceff) / (h - xg)), 0.5)


def srm(c, kfl_, kb, phi, rho_eff, kw, h, x):
    return min(1.5 * c + kfl_ * kb / 7.2 * phi / rho_eff, 1.3 / kw * (h - x))


def wk23(kw, h, xg, hc_eff, c, kb, phi, rho_eff, x, sigma_s, kt, fct_eff, alphae, Es):
    a = (h - x) / (h - c - phi / 2 - x)
    s = srm(c, kfl(h, xg, hc_eff), kb, phi, rho_eff, kw, h, x)
    e = eps23(sigma_s, kt, fct_eff, rho_eff, alphae, Es)
    return kw * a * s * e, a, s, e


def defl(delta_loads, delta_shr, fck1, phi1, b1, h, d, As1, Mk):
    cr = ref_fctm_23(fck1) * 1e3 * b1 * h * h / 6
    if Mk < cr:
        return delta_loads + delta_shr
    z = 1 - 0.5 * (cr / Mk) ** 2
    rho = As1 * 1e-4 / (b1 * d)
    ae = 2e5 / eceff(ref_fcm(fck1), phi1)
    ratio = 1 / (2.7 * (ae * rho) ** 0.6 * (d / h) ** 3)
    return (z * ratio + 1 - z) * (delta_loads + (455 * rho ** 2 - 35 * rho + 1.6) * delta_shr)


def mk(r, a):
    cr = ref_fctm_23(a['fck1']) * 1e3 * a['b1'] * a['h'] ** 2 / 6
    return cr * float(r.uniform(0.2, 1) if r.integers(3) == 0 else r.uniform(1, 5))


WK23 = dict(kw=C(1.7, 1.3), h=U(100, 2000), xg=lambda r, a: a['h'] * float(r.uniform(0.2, 0.6)),
            hc_eff=lambda r, a: a['h'] * float(r.uniform(0.02, 0.6)), c=lambda r, a: a['h'] * float(r.uniform(0.02, 0.15)),
            kb=C(0.9, 1.2), phi=U(6, 32), rho_eff=L(0.002, 0.1), x=lambda r, a: a['h'] * float(r.uniform(0, 0.6)),
            sigma_s=U(0, 450, 0, 200), kt=C(0.4, 0.6), fct_eff=FCT, alphae=U(4, 25), Es=ES)
EPS23 = {k: WK23[k] for k in ('sigma_s', 'kt', 'fct_eff', 'rho_eff', 'alphae', 'Es')}

FNS = [
    Fn(e4.w_max, lambda exposure_class, load_combination: EXP_04[exposure_class.upper().strip()],
       exposure_class=ALLX, load_combination=C('qp', 'QP', ' qp '),
       reject=[dict(exposure_class=C('', 'XC5', 'X', 'XD', 'XF1')), dict(load_combination=C('', 'x', 'r', 'qpf'))]),
    Fn(e4.w_max, lambda exposure_class, load_combination: 0.2, name='ec2_2004.w_max(f)', exposure_class=PREX,
       load_combination=C('f', 'F', ' f'), reject=[dict(exposure_class=C('XD1', 'XS1', 'XS3', 'XC5', ''))]),
    Fn(e4.As_min, lambda A_ct, sigma_s, fct_eff, k, kc: kc * k * abs(fct_eff) * A_ct / sigma_s, **ASMIN, reject=BAD_AS),
    Fn(e4.k, ref_k, h=U(0, 1500, 300, 800, 0), reject=neg('h')),
    Fn(e4.kc_tension, lambda: 1.0),
    Fn(e4.kc_rect_area, ref_kc, rtol=1e-8, atol=1e-12, h=U(60, 3000, 1000), b=U(60, 3000), fct_eff=FCT,
       N_ed=lambda r, a: 0.0 if r.integers(6) == 0 else a['h'] * a['b'] * 1e-3 * float(r.uniform(-6, 10)), reject=neg('h', 'b')),
    Fn(e4.kc_flanges_area, lambda f_cr, A_ct, fct_eff: max(0.9 * abs(f_cr) * 1e3 / A_ct / fct_eff, 0.5),
       f_cr=U(-3000, 3000), A_ct=L(1e4, 4e6), fct_eff=FCT),
    Fn(e4.xi1, ref_xi1, xi=U(0.15, 0.8, 0.15, 0.8), phi_p=U(5, 40), phi_s=U(0, 40, 0),
       reject=[dict(phi_p=U(-10, 0, 0)), dict(phi_s=NEG), dict(xi=U(0, 0.1499)), dict(xi=U(0.8001, 2))]),
    Fn(e4.hc_eff, lambda h, d, x: min(2.5 * (h - d), (h - x) / 3, h / 2), **BASE,
       reject=neg('h', 'd', 'x') + [dict(h=K(100.0), d=U(100.1, 300), x=K(10.0)), dict(h=K(100.0), d=K(90.0), x=U(100.1, 300))]),
    Fn(e4.As_min_p, ref_asp, rtol=1e-8, atol=1e-9, **ASMIN, Ap=U(0, 2000, 0), phi_s=U(0, 40, 0), phi_p=U(5, 40), xi=U(0.15, 0.8),
       delta_s=U(0, 300, 0), reject=BAD_AS + neg('Ap', 'delta_s', 'phi_p', 'phi_s') + [dict(xi=U(0, 0.149)), dict(xi=U(0.801, 2))]),
    Fn(e4.alpha_e, lambda Es, Ecm: Es / Ecm, Es=ES, Ecm=U(1e4, 5e4), reject=neg('Es', 'Ecm')),
    Fn(e4.rho_p_eff, lambda As, xi1, Ap, Ac_eff: (As + xi1 ** 2 * Ap) / Ac_eff, As=U(0, 9000, 0), xi1=U(0, 1.5, 0), Ap=U(0, 5000, 0),
       Ac_eff=L(1e3, 1e6), reject=neg('As', 'xi1', 'Ap', 'Ac_eff')),
    Fn(e4.kt, lambda load_type: 0.6 if load_type.lower().strip() == 'short' else 0.4,
       load_type=C('short', 'long', 'Short', 'LONG', ' long '), exc=(ValueError, TypeError),
       reject=[dict(load_type=C('', 'medium', 'shor', None, 1))]),
    Fn(e4.eps_sm_eps_cm, ref_eps, sigma_s=U(0, 450, 0, 200), alpha_e=U(4, 25), rho_p_eff=L(0.002, 0.1), kt=C(0.4, 0.6), fct_eff=FCT,
       Es=ES, reject=neg('sigma_s', 'alpha_e', 'rho_p_eff', 'fct_eff', 'Es') + [dict(kt=C(0.5, 0, 1, 0.41))]),
    Fn(e4.w_spacing, lambda c, phi: 5 * (c + phi / 2), c=U(0, 100, 0), phi=U(0, 40, 0), reject=neg('c', 'phi')),
    Fn(e4.phi_eq, lambda n1, n2, phi1, phi2: (n1 * phi1 ** 2 + n2 * phi2 ** 2) / (n1 * phi1 + n2 * phi2), n1=I(1, 9), n2=I(0, 9),
       phi1=U(5, 40), phi2=U(0, 40, 0), exc=(ValueError, TypeError),
       reject=[dict(n1=I(-9, -1)), dict(n2=I(-9, -1)), dict(n1=C(1.5, 2.0)), dict(n2=C(1.5, 2.0)), dict(phi1=NEG), dict(phi2=NEG)]),
    Fn(e4.k1, lambda bond_type: 0.8 if bond_type.lower().strip() == 'bond' else 1.6, bond_type=C('bond', 'plain', 'Bond', 'PLAIN', ' bond'),
       exc=(ValueError, TypeError), reject=[dict(bond_type=C('', 'good', 'bonded', None, 1))]),
    Fn(e4.k2, lambda eps_r: (1 + eps_r) / 2, eps_r=U(0, 1, 0, 1), reject=[dict(eps_r=NEG), dict(eps_r=U(1.0001, 5))]),
    Fn(e4.k3, lambda: 3.4), Fn(e4.k4, lambda: 0.425),
    Fn(e4.sr_max_close, ref_srmax, opt=('k3', 'k4'), c=U(0, 100, 0), phi=U(0, 40, 0), rho_p_eff=L(0.002, 0.1), k1=C(0.8, 1.6),
       k2=U(0.5, 1, 0.5, 1), k3=C(3.4, None, 2.0, 0.0), k4=C(0.425, None, 0.3, 0.0),
       reject=neg('c', 'phi', 'rho_p_eff', 'k3', 'k4') + [dict(k1=C(0.7, 1.0, 1.5)), dict(k2=U(0, 0.4999)), dict(k2=U(1.0001, 2))]),
    Fn(e4.sr_max_far, lambda h, x: 1.3 * (h - x), **{k: BASE[k] for k in ('h', 'x')},
       reject=neg('h', 'x') + [dict(h=K(100.0), x=U(100.1, 400))]),
    Fn(e4.sr_max_theta, lambda sr_max_y, sr_max_z, theta: 1 / (math.cos(theta) / sr_max_y + math.sin(theta) / sr_max_z),
       sr_max_y=L(20, 2000), sr_max_z=L(20, 2000), theta=U(0, math.pi / 2, 0), reject=neg('sr_max_y', 'sr_max_z')),
    Fn(e4.wk, lambda sr_max, eps_sm_eps_cm: sr_max * eps_sm_eps_cm, sr_max=U(0, 1500, 0), eps_sm_eps_cm=U(0, 3e-3, 0),
       reject=neg('sr_max') + [dict(eps_sm_eps_cm=U(-1, -1e-9))]),
    Fn(e4.eps_sm_eps_cm_restraint_end, lambda alpha_e, rho_p_eff, kc, k, fct_eff, Es: 0.5 * kc * k * fct_eff * (alpha_e + 1 / rho_p_eff) / Es,
       alpha_e=U(4, 25), rho_p_eff=L(0.002, 0.1), kc=U(0.1, 1, 1), k=KK, fct_eff=FCT, Es=ES),
    # ------------------------------------------------------------- EC2:2023
    Fn(e23.Ec_eff, eceff, opt=('kE',), fcm=U(20, 130, 88), phi=U(0, 6, 0), kE=U(5000, 13000, 9500)),
    Fn(e23.As_min_y, asy, rtol=1e-8, atol=1e-9, NEd=U(-5000, 12000, 0), b=U(0.1, 3, 0.3, 0.8), h=U(0.1, 3, 0.3, 0.8), fct_eff=FCT, fyk=U(300, 700, 500)),
    Fn(e23.kh, kh, b=U(0.05, 3, 0.3, 0.8), h=U(0.05, 3, 0.3, 0.8)),
    Fn(e23.wk_cal2, lambda kw, k_1_r, srm_cal, epssm_epscm: kw * k_1_r * srm_cal * epssm_epscm, kw=C(1.7, 1.3), k_1_r=U(1, 3),
       srm_cal=U(20, 1500), epssm_epscm=U(0, 3e-3, 0)),
    Fn(e23.k_1_r, lambda h, x, ay: (h - x) / (h - ay - x), h=U(100, 2000), x=WK23['x'], ay=WK23['c']),
    Fn(e23.epssm_epscm, eps23, **EPS23),
    Fn(e23.kfl, kfl, h=WK23['h'], xg=WK23['xg'], hceff=lambda r, a: a['h'] * float(r.uniform(0.01, 0.9))),
    Fn(e23.srm_cal, srm, h=U(100, 2000), c=WK23['c'], kfl_=U(0.5, 1, 0.5), kb=C(0.9, 1.2), phi=U(6, 32), rho_eff=L(0.002, 0.1), kw=C(1.7, 1.3),
       x=WK23['x']),
    Fn(e23.wk_cal, wk23, rtol=1e-8, **WK23),
    Fn(e23.delta_simpl, defl, rtol=1e-8, delta_loads=U(0, 60, 0), delta_shr=U(0, 30, 0), fck1=U(12, 100, 50), phi1=U(0, 5), b1=U(0.1, 3),
       h=U(0.1, 2), d=lambda r, a: a['h'] * float(r.uniform(0.7, 0.97)), As1=U(1, 100), Mk=mk,
       skip=lambda a: abs(a['Mk'] / (ref_fctm_23(a['fck1']) * 1e3 * a['b1'] * a['h'] ** 2 / 6) - 1) < 1e-9),
]


@M.family(quick=500 * len(FNS), thorough=3000 * len(FNS), timeout=60)
def values(ctx):
    watch(ctx, FNS[ctx.index % len(FNS)], n=30)


# ------------------------------------------------------- tables 7.2N, 7.3N
S = [160, 200, 240, 280, 320, 360]
W = [0.2, 0.3, 0.4]
PHI = [[25, 32, 40], [16, 25, 32], [12, 16, 20], [8, 12, 16], [6, 10, 12], [5, 8, 10]]
SPA = [[200, 300, 300], [150, 250, 300], [100, 200, 250], [50, 150, 200], [None, 100, 150], [None, 50, 100]]


@M.family(quick=3000, thorough=10000)
def tables(ctx):
    r = ctx.rng
    k = int(r.integers(6))
    h = float(r.uniform(100, 1500))
    d = h * float(r.uniform(0.6, 0.97))
    hcr, f = float(r.uniform(20, h)), float(r.uniform(0.5, 6))
    kc = None if r.integers(3) == 0 else float(r.uniform(0.05, 1))
    ds = float(r.choice([0, r.uniform(0, 150)]))
    scale = f / 2.9 * (hcr / (8 * (h - d)) if kc is None else kc * hcr / (2 * (h - d)))
    kw = {} if kc is None and r.integers(2) else {'kc': kc}
    if k <= 1:                                   # table entries
        i, j = int(r.integers(6)), int(r.integers(3))
        s, w = float(S[i]), W[j]
        if SPA[i][j] is None:
            ctx.rejects('reject', 'As_min_2 without entry', e4.As_min_2, w, s, f, hcr, h, d, 0, **kw)
            return
        a, b = ctx.call('As_min_2', e4.As_min_2, w, s, f, hcr, h, d, 0, **kw)
        ctx.close('table', [a, b], [PHI[i][j] * scale, SPA[i][j]], rtol=1e-7, key='As_min_2:entry')
    elif k <= 3:                                 # between the entries
        s, w = float(r.uniform(160, 360)), float(r.uniform(0.2, 0.4))
        if s > 279.9 and w < 0.3001:
            w = float(r.uniform(0.301, 0.4))
        got = ctx.call('As_min_2', e4.As_min_2, w, s + ds, f, hcr, h, d, ds, **kw)
        for g, t, q in ((got[0], PHI, scale), (got[1], [[v or 0 for v in x] for x in SPA], 1.0)):
            lo, hi = cell(s, w, S, W, t)
            ctx.check('table', lo * q * (1 - 1e-6) <= g <= hi * q * (1 + 1e-6), 'As_min_2:between',
                      f'{g} outside [{lo * q}, {hi * q}]', s=s, w=w, scale=q)
    elif k == 4:                                 # out of scope
        s, w = float(r.uniform(160, 360)), float(r.uniform(0.2, 0.4))
        n = int(r.integers(4))
        if n == 0:
            s = float(r.uniform(1, 159))
        elif n == 1:
            s = float(r.uniform(361, 700))
        elif n == 2:
            w = float(r.uniform(0, 0.199))
        else:
            w = float(r.uniform(0.401, 1))
        ctx.rejects('reject', 'As_min_2 out of scope', e4.As_min_2, w, s + ds, f, hcr, h, d, ds, key='As_min_2:scope', **kw)
        bad = [(-w, s, f, hcr, h, d), (w, s, -f, hcr, h, d), (w, s, f, -hcr, h, d), (w, s, f, hcr, -h, d), (w, s, f, hcr, h, -d)]
        ctx.rejects('reject', 'As_min_2 negative', e4.As_min_2, *bad[int(r.integers(5))], 0, **kw)
        ctx.rejects('reject', 'As_min_2 kc', e4.As_min_2, w, s, f, hcr, h, d, 0, float(r.choice([-0.1, 1.1])))
    else:                                        # all stress taken by prestress
        s = float(r.uniform(1, 300))
        got = ctx.call('As_min_2', e4.As_min_2, 0.3, s, f, hcr, h, d, s * float(r.choice([1, 1.5])), **kw)
        ctx.close('table', got, [0, 0], atol=1e-12, key='As_min_2:none')
    ctx.sig(k, round(scale, 2), round(w, 3) if k < 5 else 0)


# ------------------------------------------------------------ compositions
def draw(f, r):
    return f.sample(r)


BY = {f.name: f for f in FNS}


@M.family(quick=3000, thorough=10000)
def chains(ctx):
    r = ctx.rng
    # EC2: crack width from its parts, and direction in the steel stress
    a = BY['ec2_2004.eps_sm_eps_cm'].sample(r)
    b = BY['ec2_2004.sr_max_close'].sample(r)
    b['rho_p_eff'] = a['rho_p_eff']
    e, s = e4.eps_sm_eps_cm(**a), e4.sr_max_close(**b)
    ctx.close('compose', e4.wk(s, e), ref_srmax(**b) * ref_eps(**a), rtol=1e-9, key='wk')
    ctx.check('limit', e >= 0.6 * a['sigma_s'] / a['Es'] * (1 - 1e-12), 'floor:eps_sm', 'below 0.6 sigma_s/Es', e=e, args=a)
    q = np.sort(r.uniform(0, 500, 8))
    v = [e4.eps_sm_eps_cm(**{**a, 'sigma_s': float(x)}) for x in q]
    ctx.check('monotone', all(y >= x for x, y in zip(v, v[1:])), 'monotone:eps_sm', 'falls with the stress', values=v)
    # minimum steel without and with prestress
    m = {k: f(r, {}) for k, f in ASMIN.items()}
    plain = e4.As_min(**m)
    ctx.close('compose', e4.As_min_p(**m, Ap=0.0, phi_s=10.0, phi_p=12.0, xi=0.5, delta_s=100.0), plain, rtol=1e-12, key='As_min_p:Ap=0')
    p = [e4.As_min_p(**m, Ap=float(x), phi_s=10.0, phi_p=12.0, xi=0.5, delta_s=100.0) for x in np.sort(r.uniform(0, 3000, 5))]
    ctx.check('monotone', all(y <= x + 1e-9 for x, y in zip(p, p[1:])), 'monotone:As_min_p', 'grows with prestress', values=p)
    h = np.sort(r.uniform(0, 1500, 10))
    kk = [float(e4.k(float(x))) for x in h]
    ctx.check('limit', min(kk) >= 0.65 and max(kk) <= 1, 'limits:k', 'k outside 0.65..1', values=kk)
    ctx.check('monotone', all(y <= x for x, y in zip(kk, kk[1:])), 'monotone:k', 'grows with the depth', values=kk)
    g = [e4.kc_rect_area(float(h[-1]) + 1, 300.0, 3.0, float(x)) for x in np.sort(r.uniform(-5e3, 5e3, 8))]
    ctx.check('limit', min(g) >= 0 and max(g) <= 1, 'limits:kc', 'kc outside 0..1', values=g)
    ctx.check('monotone', all(y <= x + 1e-12 for x, y in zip(g, g[1:])), 'monotone:kc', 'grows with compression', values=g)
    # equivalent diameter lies between the diameters
    n1, n2 = int(r.integers(1, 9)), int(r.integers(1, 9))
    d1, d2 = float(r.uniform(5, 40)), float(r.uniform(5, 40))
    d = e4.phi_eq(n1, n2, d1, d2)
    ctx.check('limit', min(d1, d2) * (1 - 1e-12) <= d <= max(d1, d2) * (1 + 1e-12), 'phi_eq', 'outside the diameters', d=d)
    # inclined cracks: pure directions
    y, z = float(r.uniform(20, 900)), float(r.uniform(20, 900))
    ctx.close('compose', e4.sr_max_theta(y, z, 0.0), y, rtol=1e-12, key='sr_max_theta')
    ctx.close('compose', e4.sr_max_theta(y, z, math.pi / 2), z, rtol=1e-9, key='sr_max_theta')
    # EC2:2023
    w = BY['ec2_2023.wk_cal'].sample(r)
    t = e23.wk_cal(**w)
    k1r = e23.k_1_r(w['h'], w['x'], w['c'] + w['phi'] / 2)
    fl = e23.kfl(w['h'], w['xg'], w['hc_eff'])
    sm = e23.srm_cal(w['c'], fl, w['kb'], w['phi'], w['rho_eff'], w['kw'], w['h'], w['x'])
    ep = e23.epssm_epscm(**{k: w[k] for k in EPS23})
    ctx.close('compose', t, [e23.wk_cal2(w['kw'], k1r, sm, ep), k1r, sm, ep], rtol=1e-12, key='wk_cal')
    ctx.check('limit', fl >= 0.5 and k1r >= 1 and sm <= 1.3 / w['kw'] * (w['h'] - w['x']) * (1 + 1e-12)
              and ep >= (1 - w['kt']) * w['sigma_s'] / w['Es'] * (1 - 1e-12), 'limits:wk_cal', 'a limit of 9.2.3 is not active', parts=t, args=w)
    A = BY['ec2_2023.As_min_y'].sample(r)
    u1, u2 = e23.As_min_y(**A)
    ctx.check('limit', 0 <= u2 <= u1 <= 0.5 * kh(A['b'], A['h']) * A['fct_eff'] * A['b'] * A['h'] / A['fyk'] * 1e4 * (1 + 1e-12),
              'limits:As_min_y', 'outside the limits', areas=(u1, u2), args=A)
    D = BY['ec2_2023.delta_simpl'].sample(r)
    ctx.close('compose', e23.delta_simpl(**{**D, 'delta_loads': 2 * D['delta_loads'], 'delta_shr': 2 * D['delta_shr']}),
              2 * e23.delta_simpl(**D), rtol=1e-12, atol=1e-12, key='delta_simpl:linear')
    ctx.sig(float(f'{t[0]:.3g}'), float(f'{plain:.3g}'))


EXTRA = [e4.As_min_2]
