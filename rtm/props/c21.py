"""C21: material-property functions of the codes."""
import math

import numpy as np

from structuralcodes.codes import ec2_2004 as e4, ec2_2023 as e23, mc2010 as mc

from ..core import Module
from ..formulas import C, Fn, I, K, L, U, continuous, monotone, watch

M = Module(
    'C21',
    'all material-property functions of the three codes, arguments sampled '
    'over the whole scope with branch and table points and their neighbours; '
    'oracle: own transcription of the formulas and tables; non-trivial = '
    'distinct (function, value to 3 digits)',
    required={'mon:value': 3000, 'mon:kinds': 1000, 'mon:pure': 500, 'mon:arrays': 100,
              'mon:reject': 100, 'mon:monotone': 20, 'mon:continuous': 15, 'mon:exports': 3,
              'mon:compose': 50},
)


def signed(s):
    def q(r, a):
        v = s(r, a)
        return -v if r.integers(4) == 0 else v
    return q


FCK = U(12, 90, 12, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90)
FCK_MC = U(12, 120, 12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120)
FCM = U(20, 98, 20, 28, 38, 48, 58, 68, 98)
FCM_MC = U(20, 130, 20, 60, 68, 88, 130)
CT = U(0.5, 6)
GC = U(1.0, 1.8, 1.0, 1.2, 1.5)
T = L(0.1, 40000, 28, 1, 3, 7, 365)

HALF = 0.5


# --------------------------------------------------------------- references
def fctm_low(f):
    return 0.3 * f ** (2 / 3)


def ref_fctm_mc(fck):
    f = abs(fck)
    return fctm_low(f) if f <= 50 else 2.12 * math.log(1 + (f + 8) / 10)


def ref_fctm_23(fck):
    f = abs(fck)
    return fctm_low(f) if f <= 50 else 1.1 * f ** (1 / 3)


def ref_fcm(fck, delta_f=8):
    return abs(fck) + abs(delta_f)


def ref_fcd(fck, alpha_cc=1.0, gamma_c=1.5):
    return abs(alpha_cc * fck / gamma_c)


def high(base, over):
    def f(fck):
        v = abs(fck)
        return base if v <= 50 else over(v)
    return f


ref_ec2 = high(2.0e-3, lambda f: (2.0 + 0.085 * (f - 50) ** 0.53) * 1e-3)
ref_ecu2 = high(3.5e-3, lambda f: (2.6 + 35 * ((90 - f) / 100) ** 4) * 1e-3)
ref_n = high(2.0, lambda f: 1.4 + 23.4 * ((90 - f) / 100) ** 4)
ref_ec3 = high(1.75e-3, lambda f: (1.75 + 0.55 * (f - 50) / 40) * 1e-3)


def ref_ecu1_04(fck):
    f = abs(fck)
    # Tab. 3.1: the expression holds for fck >= 50
    return 3.5e-3 if f < 50 else (2.8 + 27 * ((98 - (f + 8)) / 100) ** 4) * 1e-3


MC_GRADE = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120]
MC_EC1 = [1.9, 2.0, 2.1, 2.2, 2.3, 2.3, 2.4, 2.5, 2.6, 2.6, 2.7, 2.7, 2.8, 2.9, 3.0, 3.0, 3.0]
MC_ECL = [3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.4, 3.4, 3.3, 3.2, 3.1, 3.0, 3.0, 3.0, 3.0]
MC_K = [2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55, 1.47, 1.41, 1.36,
        1.32, 1.24, 1.18]


def lin(x, xs, ys):
    """Piecewise linear, written out."""
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] * (1 - t) + ys[i + 1] * t
    raise ValueError(x)


S04 = {'R': 0.20, 'N': 0.25, 'S': 0.38}
SMC = {'32.5 N': 0.38, '32.5 R': 0.25, '42.5 N': 0.25, '42.5 R': 0.20, '52.5 N': 0.20, '52.5 R': 0.20}
AGG = {'basalt': 1.2, 'quartzite': 1.0, 'limestone': 0.9, 'sandstone': 0.7}
DUCT = {'A': (0.025, 1.05), 'B': (0.05, 1.08), 'C': (0.075, 1.15)}
DUCT_MC = {**DUCT, 'D': (0.08, 1.25)}


def cases(d):
    """The names as tabulated and in the other case."""
    return C(*[v for k in d for v in (k, k.lower())])


def ref_duct(table):
    def f(fyk, ductility_class):
        e, k = table[ductility_class.upper()]
        return {'epsuk': e, 'ftk': k * fyk}
    return f


def ref_beta(t, s):
    return math.exp(s * (1 - math.sqrt(28 / t)))


def ref_beta_ct(t, s):
    b = ref_beta(t, s)
    return b if t < 28 else b ** (2 / 3)


def ref_beta_mc(time, fcm, cem_class):
    return ref_beta(time, 0.20 if fcm > 60 else SMC[cem_class.upper()])


# EN 1992-1-1:2023 tables
HN = [100, 200, 500, 1000]
AEXP = {'dry': [0.82, 0.79, 0.75, 0.72], 'humid': [0.71, 0.68, 0.66, 0.64]}
PHI_T = {'CS': [3, 10, 32, 91, 365], 'CN': [1, 7, 28, 91, 365], 'CR': [1, 3, 23, 91, 365]}
PHI = {'dry': [[4.2, 3.8, 3.4, 3.1], [3.1, 2.8, 2.5, 2.3], [2.4, 2.2, 1.9, 1.8],
               [1.9, 1.7, 1.5, 1.4], [1.4, 1.3, 1.1, 1.0]],
       'humid': [[3.0, 2.8, 2.6, 2.5], [2.2, 2.1, 2.0, 1.9], [1.7, 1.6, 1.6, 1.5],
                 [1.4, 1.3, 1.2, 1.2], [1.0, 0.9, 0.9, 0.8]]}
CS_F = {'CS': [20, 35, 50], 'CN': [20, 35, 50, 80], 'CR': [35, 50, 80]}
CS_V = {'dry': {'CS': [[.57, .56, .48, .36], [.53, .51, .45, .35], [.49, .48, .43, .35]],
                'CN': [[.67, .65, .56, .41], [.60, .59, .51, .39], [.55, .54, .48, .37],
                       [.48, .48, .43, .36]],
                'CR': [[.76, .74, .65, .48], [.67, .66, .58, .44], [.55, .54, .49, .39]]},
        'humid': {'CS': [[.33, .32, .28, .21], [.31, .31, .27, .22], [.30, .29, .27, .23]],
                  'CN': [[.38, .37, .32, .24], [.34, .34, .30, .24], [.31, .31, .28, .23],
                         [.30, .30, .28, .25]],
                  'CR': [[.42, .41, .36, .28], [.36, .35, .32, .26], [.31, .30, .28, .25]]}}
ALIAS = {'SLOW': 'CS', 'NORMAL': 'CN', 'RAPID': 'CR', 'CS': 'CS', 'CN': 'CN', 'CR': 'CR'}
CLASS = C('CS', 'CN', 'CR', 'slow', 'normal', 'rapid', 'cs', 'Slow', ' CN ', 'RAPID')
ATM = C('dry', 'humid', 'Dry', ' HUMID')


def cell(x, y, xs, ys, v):
    """Range of the two linear interpolants (either diagonal) in the cell."""
    i = max(k for k in range(len(xs) - 1) if xs[k] <= x)
    j = max(k for k in range(len(ys) - 1) if ys[k] <= y)
    s = (x - xs[i]) / (xs[i + 1] - xs[i])
    t = (y - ys[j]) / (ys[j + 1] - ys[j])
    a, b, c, d = v[i][j], v[i + 1][j], v[i][j + 1], v[i + 1][j + 1]
    one = a + s * (b - a) + t * (d - b) if s >= t else a + t * (c - a) + s * (d - c)
    two = a + s * (b - a) + t * (c - a) if s + t <= 1 else d + (1 - s) * (c - d) + (1 - t) * (b - d)
    bil = (a * (1 - s) + b * s) * (1 - t) + (c * (1 - s) + d * s) * t
    return min(one, two, bil), max(one, two, bil)


def norm(s):
    return ALIAS[s.upper().strip()]


def phi_range(t0, atm_conditions, hn, strength_dev_class):
    k = norm(strength_dev_class)
    return cell(t0, hn, PHI_T[k], HN, PHI[atm_conditions.lower().strip()])


def phi_age(r, a):
    """Ages within the table of the class (sampled before)."""
    ts = PHI_T[norm(a['strength_dev_class'])]
    if r.integers(3) == 0:
        return float(ts[int(r.integers(5))])
    return float(math.exp(r.uniform(math.log(ts[0]), math.log(365))))


def cs_range(fck_28, atm_conditions, hn, strength_dev_class):
    k = norm(strength_dev_class)
    return cell(fck_28, hn, CS_F[k], HN, CS_V[atm_conditions.lower().strip()][k])


def cs_fck(r, a):
    fs = CS_F[norm(a['strength_dev_class'])]
    if r.integers(3) == 0:
        return float(fs[int(r.integers(len(fs)))])
    return float(r.uniform(fs[0], fs[-1]))


HNS = U(100, 1000, 100, 200, 500, 1000)


def ref_ktc(t_ref, t0, strength_dev_class):
    lim = 56 if norm(strength_dev_class) == 'CS' else 28
    return 1.0 if t_ref <= lim and t0 > 90 else 0.85


def ref_ktt(t_ref, strength_dev_class):
    lim = 56 if norm(strength_dev_class) == 'CS' else 28
    return 0.8 if t_ref <= lim else 0.7


PRE = {('W', 'Y1570'): (1380, 1570), ('W', 'Y1670'): (1470, 1670), ('W', 'Y1770'): (1550, 1770),
       ('W', 'Y1860'): (1650, 1860), ('S', 'Y1770'): (1560, 1770), ('S', 'Y1860'): (1640, 1860),
       ('S', 'Y1960'): (1740, 1960), ('S', 'Y2060'): (1830, 2060), ('B', 'Y1030'): (835, 1030),
       ('B', 'Y1050'): (950, 1050), ('B', 'Y1100'): (900, 1100), ('B', 'Y1230'): (1080, 1230)}


def pre_class(r, a):
    ks = [k for k in PRE if k[0] == a['element'].upper().strip()]
    v = ks[int(r.integers(len(ks)))][1]
    return [v, v.lower(), ' ' + v][int(r.integers(3))]


def ref_bilin(eps, fy, fu, eu, E):
    ey = fy / E
    return eps * E if eps <= ey else fy + (fu - fy) * (eps - ey) / (eu - ey)


def eps_upto(name):
    def s(r, a):
        top = a[name]
        k = int(r.integers(6))
        if k == 0:
            return 0.0
        if k == 1:
            return top
        return float(r.uniform(0, top)) if k < 4 else float(r.uniform(0, min(top, 0.004)))
    return s


FNS = [
    # ------------------------------------------------------------- EC2:2004
    Fn(e4.fcm, ref_fcm, opt=('delta_f',), fck=signed(FCK), delta_f=signed(U(0, 12, 8, 4, 0))),
    Fn(e4.fctm, ref_fctm_mc, fck=signed(FCK)),
    Fn(e4.fctk_5, lambda fctm: 0.7 * abs(fctm), fctm=signed(CT)),
    Fn(e4.fctk_95, lambda fctm: 1.3 * abs(fctm), fctm=signed(CT)),
    Fn(e4.Ecm, lambda fcm: 22e3 * (abs(fcm) / 10) ** 0.3, fcm=signed(FCM)),
    Fn(e4.eps_c1, lambda fcm: min(0.7 * abs(fcm) ** 0.31, 2.8) * 1e-3, fcm=signed(FCM)),
    Fn(e4.eps_cu1, ref_ecu1_04, fck=signed(FCK)),
    Fn(e4.k_sargin, lambda Ecm, fcm, eps_c1: 1.05 * Ecm * abs(eps_c1) / fcm,
       Ecm=U(2e4, 5e4), fcm=FCM, eps_c1=signed(U(1.5e-3, 3e-3))),
    Fn(e4.eps_c2, ref_ec2, fck=signed(FCK)),
    Fn(e4.eps_cu2, ref_ecu2, fck=signed(FCK)),
    Fn(e4.n_parabolic_rectangular, ref_n, fck=signed(FCK)),
    Fn(e4.eps_c3, ref_ec3, fck=signed(FCK)),
    Fn(e4.eps_cu3, ref_ecu2, fck=signed(FCK)),
    Fn(e4.fcd, ref_fcd, fck=signed(FCK), alpha_cc=signed(U(0.8, 1, 1, 0.85)), gamma_c=signed(GC)),
    Fn(e4.beta_cc, ref_beta, arr=('t',), t=T, s=C(0.2, 0.25, 0.38)),
    Fn(e4.beta_ct, ref_beta_ct, arr=('t',), t=T, s=C(0.2, 0.25, 0.38)),
    Fn(e4.beta_E, lambda t, s: ref_beta(t, s) ** 0.3, arr=('t',), t=T, s=C(0.2, 0.25, 0.38)),
    Fn(e4.s_time_development, lambda cement_class: S04[cement_class.upper().strip()],
       cement_class=C('R', 'N', 'S', 'r', 'n', 's', ' R', 'n '),
       reject=[dict(cement_class=C('', 'X', 'RN', None, 'C'))]),
    Fn(e4.fcm_time, lambda fcm, beta_cc: fcm * beta_cc, arr=('beta_cc',), fcm=FCM, beta_cc=U(0.05, 1.5)),
    Fn(e4.fctm_time, lambda fctm, beta_cc, alpha: beta_cc ** alpha * fctm, arr=('beta_cc',),
       fctm=CT, beta_cc=U(0.05, 1.5), alpha=C(1.0, 2 / 3)),
    Fn(e4.Ecm_time, lambda fcm, fcm_time, Ecm: (fcm_time / fcm) ** 0.3 * Ecm, arr=('fcm_time',),
       fcm=FCM, fcm_time=U(2, 120), Ecm=U(2e4, 5e4)),
    Fn(e4.fyd, lambda fyk, gamma_s: fyk / gamma_s, fyk=U(0, 700, 0, 500), gamma_s=GC,
       reject=[dict(fyk=U(-600, -1e-6)), dict(gamma_s=U(0.1, 0.999))]),
    Fn(e4.epsud, lambda epsuk, gamma_eps=0.9: epsuk * gamma_eps, opt=('gamma_eps',),
       epsuk=U(0, 0.1, 0), gamma_eps=U(0.1, 1, 1, 0.9),
       reject=[dict(epsuk=U(-1, -1e-9)), dict(gamma_eps=U(1.0001, 2))]),
    Fn(e4.reinforcement_duct_props, ref_duct(DUCT), fyk=U(200, 700), ductility_class=cases(DUCT),
       reject=[dict(ductility_class=C('D', 'X', '', 'AB', 'E'))]),
    # ------------------------------------------------------------- MC2010
    Fn(mc.fcm, ref_fcm, opt=('delta_f',), fck=signed(FCK_MC), delta_f=signed(U(0, 12, 8, 4))),
    Fn(mc.fctm, ref_fctm_mc, fck=signed(FCK_MC)),
    Fn(mc.fctkmin, lambda fctm: 0.7 * fctm, fctm=CT),
    Fn(mc.fctkmax, lambda fctm: 1.3 * fctm, fctm=CT),
    Fn(mc.Gf, lambda fck: 73 * (fck + 8) ** 0.18, fck=FCK_MC),
    Fn(mc.Eci, lambda fcm, agg_type='quartzite', EC0=21500: EC0 * AGG[agg_type.lower()] * (fcm / 10) ** (1 / 3),
       opt=('agg_type', 'EC0'), fcm=FCM_MC, agg_type=cases(AGG), EC0=U(18e3, 24e3, 21500)),
    Fn(mc.beta_cc, ref_beta_mc, arr=('time',), time=T, fcm=FCM_MC, cem_class=cases(SMC)),
    Fn(mc.beta_e, lambda beta_cc: math.sqrt(beta_cc), arr=('beta_cc',), beta_cc=U(0.01, 1.5)),
    Fn(mc.Eci_t, lambda beta_e, Eci: beta_e * Eci, arr=('beta_e',), beta_e=U(0.1, 1.3), Eci=U(2e4, 5e4)),
    Fn(mc.fcd, ref_fcd, opt=('alpha_cc', 'gamma_c'), fck=signed(FCK_MC),
       alpha_cc=signed(U(0.8, 1, 0.85)), gamma_c=signed(GC)),
    Fn(mc.eps_c1, lambda fck: -lin(fck, MC_GRADE, MC_EC1) * 1e-3, fck=FCK_MC,
       reject=[dict(fck=U(0, 11.999)), dict(fck=U(120.001, 300)), dict(fck=U(-120, -12))]),
    Fn(mc.eps_cu1, lambda fck: -lin(fck, MC_GRADE, MC_ECL) * 1e-3, fck=FCK_MC,
       reject=[dict(fck=U(0, 11.999)), dict(fck=U(120.001, 300)), dict(fck=U(-120, -12))]),
    Fn(mc.k_sargin, lambda fck: lin(fck, MC_GRADE, MC_K), fck=FCK_MC,
       reject=[dict(fck=U(0, 11.999)), dict(fck=U(120.001, 300))]),
    Fn(mc.eps_c2, ref_ec2, fck=signed(FCK)),
    Fn(mc.eps_cu2, ref_ecu2, fck=signed(FCK)),
    Fn(mc.n_parabolic_rectangular, ref_n, fck=signed(FCK)),
    Fn(mc.eps_c3, ref_ec3, fck=signed(FCK)),
    Fn(mc.eps_cu3, ref_ecu2, fck=signed(FCK)),
    Fn(mc.fyd, lambda fyk, gamma_s=1.15: fyk / gamma_s, opt=('gamma_s',), fyk=U(0, 700, 0, 500), gamma_s=GC,
       reject=[dict(fyk=U(-600, -1e-6)), dict(gamma_s=U(0.1, 0.999))]),
    Fn(mc.epsud, lambda epsuk, gamma_eps=0.9: epsuk * gamma_eps, opt=('gamma_eps',),
       epsuk=U(0, 0.1, 0), gamma_eps=U(0.1, 1, 1, 0.9),
       reject=[dict(epsuk=U(-1, -1e-9)), dict(gamma_eps=U(1.0001, 2))]),
    Fn(mc.reinforcement_duct_props, ref_duct(DUCT_MC), fyk=U(200, 700), ductility_class=cases(DUCT_MC),
       reject=[dict(ductility_class=C('X', '', 'AB', 'E'))]),
    # ------------------------------------------------------------- EC2:2023
    Fn(e23.fcm, ref_fcm, opt=('delta_f',), fck=FCK_MC, delta_f=U(0, 12, 8, 4)),
    Fn(e23.fctm, ref_fctm_23, fck=signed(FCK_MC)),
    Fn(e23.fctk_5, lambda fctm: 0.7 * abs(fctm), fctm=signed(CT)),
    Fn(e23.fctk_95, lambda fctm: 1.3 * abs(fctm), fctm=signed(CT)),
    Fn(e23.Ecm, lambda fcm, kE=9500: kE * fcm ** (1 / 3), opt=('kE',), fcm=FCM_MC,
       kE=U(5000, 13000, 5000, 9500, 13000),
       reject=[dict(fcm=U(-100, -1e-6)), dict(kE=U(0, 4999.9)), dict(kE=U(13000.1, 2e4))]),
    Fn(e23.hn, lambda Ac, u: 2 * Ac / u, Ac=L(1e3, 1e7), u=L(100, 1e5),
       reject=[dict(Ac=U(-10, -1e-6)), dict(u=U(-10, -1e-6))]),
    Fn(e23.A_phi_correction_exp, lambda hn, atm_conditions: lin(hn, HN, AEXP[atm_conditions.lower().strip()]),
       hn=HNS, atm_conditions=ATM,
       reject=[dict(hn=U(0, 99.99)), dict(hn=U(1000.01, 3000)), dict(atm_conditions=C('', 'wet', 'dr'))]),
    Fn(e23.phi_correction_factor, lambda fck, A_exponent: (35 / fck) ** A_exponent,
       fck=U(12, 100, 12, 35, 100), A_exponent=U(0.64, 0.82, 0.64, 0.82),
       reject=[dict(fck=U(0, 11.99)), dict(fck=U(100.01, 200)), dict(A_exponent=U(0, 0.6399)),
               dict(A_exponent=U(0.8201, 2))]),
    Fn(e23.phi_50y_t0, None, within=phi_range, strength_dev_class=CLASS, t0=phi_age, atm_conditions=ATM,
       hn=HNS, reject=[dict(t0=U(-5, 0.99)), dict(t0=U(365.1, 1e4)), dict(hn=U(0, 99.9)),
                       dict(hn=U(1000.1, 2e3)), dict(atm_conditions=C('x', '')),
                       dict(strength_dev_class=C('', 'CX', 'fast', 'R'))]),
    Fn(e23.eps_cs_50y, None, within=cs_range, strength_dev_class=CLASS, fck_28=cs_fck, atm_conditions=ATM,
       hn=HNS, reject=[dict(fck_28=U(0, 19.99)), dict(fck_28=U(80.01, 120)), dict(hn=U(0, 99.9)),
                       dict(hn=U(1000.1, 2e3)), dict(atm_conditions=C('x', '')),
                       dict(strength_dev_class=C('', 'CX', 'fast')),
                       dict(strength_dev_class=C('CS', 'slow'), fck_28=U(50.1, 80)),
                       dict(strength_dev_class=C('CR', 'rapid'), fck_28=U(20, 34.9))]),
    Fn(e23.eta_cc, lambda fck, fck_ref=40: min((fck_ref / fck) ** (1 / 3), 1.0), opt=('fck_ref',),
       fck=U(12, 120, 12, 40), fck_ref=U(20, 60, 40, 30),
       reject=[dict(fck=U(0, 11.99)), dict(fck_ref=U(-40, 0))]),
    Fn(e23.k_tc, ref_ktc, t_ref=U(0, 120, 28, 56), t0=U(0, 400, 30, 60, 91), strength_dev_class=CLASS,
       skip=lambda a: abs(a['t0'] - 90) <= 1.5,
       reject=[dict(t_ref=U(-10, -0.01)), dict(t0=U(-10, -0.01)), dict(strength_dev_class=C('', 'X', 'C'))]),
    Fn(e23.fcd, lambda fck, eta_cc, k_tc, gamma_c: eta_cc * k_tc * fck / gamma_c,
       fck=U(12, 120), eta_cc=U(0, 1, 0, 1), k_tc=C(1, 0.85), gamma_c=GC,
       reject=[dict(fck=U(0, 11.99)), dict(eta_cc=U(1.001, 2)), dict(eta_cc=U(-1, -1e-3)),
               dict(gamma_c=U(0.1, 0.999))]),
    Fn(e23.k_tt, ref_ktt, t_ref=U(0, 120, 28, 56), strength_dev_class=CLASS,
       reject=[dict(t_ref=U(-10, -0.01)), dict(strength_dev_class=C('', 'X', 'C'))]),
    Fn(e23.fctd, lambda fctk_5, k_tt, gamma_c: k_tt * fctk_5 / gamma_c, fctk_5=U(0, 5, 0), k_tt=C(0.8, 0.7),
       gamma_c=GC, reject=[dict(fctk_5=U(-5, -1e-3)), dict(gamma_c=U(0.1, 0.999))]),
    Fn(e23.eps_c1, lambda fcm: min(0.7 * fcm ** (1 / 3), 2.8) * 1e-3, fcm=FCM_MC,
       reject=[dict(fcm=U(0, 19.99))]),
    Fn(e23.eps_cu1, lambda fcm: min(2.8 + 14 * (1 - fcm / 108) ** 4, 3.5) * 1e-3, fcm=U(20, 108, 20, 108),
       reject=[dict(fcm=U(0, 19.99))]),
    Fn(e23.k_sargin, lambda Ecm, fcm, eps_c1: 1.05 * Ecm * eps_c1 / fcm, Ecm=U(2e4, 5e4), fcm=FCM_MC,
       eps_c1=U(1e-3, 3e-3),
       reject=[dict(Ecm=U(-1, 0)), dict(fcm=U(0, 19.99)), dict(eps_c1=U(-3e-3, 0))]),
    Fn(e23.eps_c2, lambda: 2.0e-3), Fn(e23.eps_cu2, lambda: 3.5e-3),
    Fn(e23.n_parabolic_rectangular, lambda: 2.0),
    Fn(e23.weight_c, lambda concrete_type: {'nc': 25, 'npc': 24}[concrete_type.lower().strip()],
       concrete_type=C('nc', 'npc', 'NC', ' NPC'), reject=[dict(concrete_type=C('', 'lc', 'n'))]),
    Fn(e23.alpha_c_th, lambda: 10e-6, wrong=('alpha_c_th:1e-4', lambda: 10e-5)),
    Fn(e23.alpha_s_th, lambda: 10e-6, wrong=('alpha_s_th:1e-4', lambda: 10e-5)),
    Fn(e23.Es, lambda: 200e3), Fn(e23.weight_s, lambda: 78.5),
    Fn(e23.fyd, lambda fyk, gamma_s: fyk / gamma_s, fyk=U(0, 700, 0, 500), gamma_s=GC,
       reject=[dict(fyk=U(-600, -1e-6)), dict(gamma_s=U(0.1, 0.999))]),
    Fn(e23.eps_ud, lambda eps_uk, gamma_s: eps_uk / gamma_s, eps_uk=U(0, 0.1, 0), gamma_s=GC,
       reject=[dict(eps_uk=U(-1, -1e-9)), dict(gamma_s=U(0.1, 0.999))]),
    Fn(e23.sigma_s, lambda eps, fy, k, eps_u, Es=200e3: ref_bilin(eps, fy, k * fy, eps_u, Es), opt=('Es',),
       fy=U(200, 700, 500), k=U(1, 1.35, 1, 1.08), eps_u=U(0.01, 0.08), Es=U(1.9e5, 2.1e5, 2e5),
       eps=eps_upto('eps_u'),
       reject=[dict(eps=U(-0.01, -1e-9)), dict(eps_u=U(-0.01, 0)), dict(k=U(1.01, 1.3), eps=U(0.09, 0.2)),
               dict(Es=U(-1e5, 0)), dict(fy=U(-500, 0)), dict(k=U(0, 0.999))]),
    Fn(e23.p_steel_stress_params,
       lambda prestress_class, element: PRE[element.upper().strip(), prestress_class.upper().strip()],
       element=C('W', 'S', 'B', 'w', 's ', ' b'), prestress_class=pre_class,
       reject=[dict(element=C('', 'X', 'WS')), dict(prestress_class=C('', 'Y1', '1770', 'Y1560')),
               dict(element='S', prestress_class='Y1570'), dict(element='B', prestress_class='Y1860')]),
    Fn(e23.fpd, lambda fp01k, gamma_P: fp01k / gamma_P, fp01k=U(0, 2000, 0), gamma_P=GC,
       reject=[dict(fp01k=U(-10, -0.01)), dict(gamma_P=U(0.1, 0.999))]),
    Fn(e23.sigma_p, lambda eps, fpy, fpu, eps_u=0.035, Ep=190e3: ref_bilin(eps, fpy, fpu, eps_u, Ep),
       opt=('Ep',), fpy=U(800, 1800), fpu=lambda r, a: a['fpy'] * float(r.choice([1.0, 1.05, 1.15])),
       eps_u=U(0.012, 0.05, 0.035), Ep=U(1.85e5, 2.05e5, 195e3), eps=eps_upto('eps_u'),
       reject=[dict(eps=U(-0.01, -1e-9)), dict(eps_u=U(-0.01, 0)),
               dict(fpu=K(2000), fpy=K(1800), eps=U(0.06, 0.2)), dict(fpy=U(-500, 0)),
               dict(fpu=K(700.0)), dict(Ep=U(-1e5, 0))]),
    Fn(e23.reinforcement_duct_props, ref_duct(DUCT), fyk=U(200, 700), ductility_class=cases(DUCT),
       reject=[dict(ductility_class=C('D', 'X', '', 'AB'))]),
    Fn(e23.alpha_c, lambda fcm_28: max(1 / (0.8 + 0.2 * fcm_28 / 88), 1.0), fcm_28=U(20, 130, 88)),
]


@M.family(quick=500 * len(FNS), thorough=3000 * len(FNS), timeout=60)
def values(ctx):
    watch(ctx, FNS[ctx.index % len(FNS)], n=30)


@M.family(quick=120, thorough=1000)
def shapes(ctx):
    """Joins and directions that follow from the code texts."""
    r = ctx.rng
    f = np.sort(r.uniform(12, 90, 25))
    for m in (e4, mc):
        nm = m.__name__.split('.')[-1]
        monotone(ctx, f'{nm}.fctm', m.fctm, f[f <= 50], +1)
        monotone(ctx, f'{nm}.fctm', m.fctm, f[f > 50], +1)
        monotone(ctx, f'{nm}.eps_c2', m.eps_c2, f[f > 50], +1)
        monotone(ctx, f'{nm}.eps_cu2', m.eps_cu2, f, -1)
        monotone(ctx, f'{nm}.n', m.n_parabolic_rectangular, f, -1)
        monotone(ctx, f'{nm}.eps_c3', m.eps_c3, f, +1)
        # the jumps at 50 MPa (and 2.6006 over 2.6 at 90 MPa) come from rounding in the code
        for g, tol in ((m.fctm, 0.01), (m.eps_c2, 1e-2), (m.eps_cu2, 1e-2), (m.eps_c3, 1e-6),
                       (m.n_parabolic_rectangular, 0.01)):
            continuous(ctx, f'{nm}.{g.__name__}', g, 50.0, rtol=tol)
        for x in f:
            ctx.check('compose', m.eps_c2(x) <= m.eps_cu2(x) * 1.001 and m.eps_c3(x) <= m.eps_cu3(x) * 1.001,
                      f'order:{nm}', 'peak strain beyond the ultimate strain', fck=float(x))
    monotone(ctx, 'ec2_2004.Ecm', e4.Ecm, f + 8, +1)
    monotone(ctx, 'ec2_2004.eps_c1', e4.eps_c1, f + 8, +1)
    monotone(ctx, 'ec2_2004.eps_cu1', e4.eps_cu1, f, -1)
    monotone(ctx, 'ec2_2023.fctm', e23.fctm, f[f <= 50], +1)
    monotone(ctx, 'ec2_2023.fctm', e23.fctm, f[f > 50], +1)
    continuous(ctx, 'ec2_2023.fctm', e23.fctm, 50.0, rtol=0.01)
    monotone(ctx, 'ec2_2023.eta_cc', e23.eta_cc, f, -1)
    continuous(ctx, 'ec2_2023.eta_cc', e23.eta_cc, 40.0)
    monotone(ctx, 'ec2_2023.eps_cu1', e23.eps_cu1, f + 8, -1)
    monotone(ctx, 'mc2010.eps_c1', mc.eps_c1, f, -1)
    monotone(ctx, 'mc2010.eps_cu1', mc.eps_cu1, f, +1)
    monotone(ctx, 'mc2010.k_sargin', mc.k_sargin, f, -1)
    t = np.sort(np.exp(r.uniform(-1, 10, 25)))
    s = float(r.choice([0.2, 0.25, 0.38]))
    monotone(ctx, 'ec2_2004.beta_cc', lambda x: e4.beta_cc(x, s), t, +1)
    monotone(ctx, 'ec2_2004.beta_ct', lambda x: e4.beta_ct(x, s), t, +1)
    for g in (e4.beta_cc, e4.beta_ct, e4.beta_E):
        ctx.close('compose', g(28, s), 1.0, rtol=1e-12, key=f'28 days:{g.__name__}')
        continuous(ctx, g.__name__, lambda x, g=g: g(x, s), 28.0)
    c = str(r.choice(list(SMC)))
    ctx.close('compose', mc.beta_cc(28, 40, c), 1.0, rtol=1e-12, key='28 days:mc2010')
    # the unit, sign and coefficient conventions of the law functions
    for fck in f[:6]:
        k = e4.k_sargin(e4.Ecm(e4.fcm(fck)), e4.fcm(fck), e4.eps_c1(e4.fcm(fck)))
        ctx.check('compose', 1 < k < 4, 'k:ec2_2004', 'unusable Sargin coefficient', fck=float(fck), k=k)
        k = e23.k_sargin(e23.Ecm(e23.fcm(fck)), e23.fcm(fck), e23.eps_c1(e23.fcm(fck)))
        ctx.check('compose', 1 < k < 4, 'k:ec2_2023', 'unusable Sargin coefficient', fck=float(fck), k=k)
    ctx.sig('shapes', float(f[0]), s)


@M.family(quick=3, thorough=3)
def exports(ctx):
    m = (e4, e23, mc)[ctx.index]
    missing = [n for n in m.__all__ if not hasattr(m, n)]
    ctx.check('exports', not missing, 'exports', 'advertised names do not exist',
              module=m.__name__, names=missing)
    ns = {}
    ctx.call('star import', exec, f'from {m.__name__} import *', ns)
    ctx.sig(m.__name__, len(m.__all__))
