"""C23: shear, torsion, punching, interface and bond functions."""
import copy
import math
import warnings

import numpy as np

from structuralcodes.codes import ec2_2004 as e4, mc2010 as mc
from structuralcodes.codes.ec2_2004 import shear as sh
from structuralcodes.codes.mc2010 import _concrete_punching as pu

from ..core import Module
from ..formulas import C, Fn, I, K, L, U, monotone, watch

M = Module(
    'C23',
    'every shear, torsion, punching, interface and bond function of '
    'EC2:2004 and MC2010 with caps, minima, load signs, strut and stirrup '
    'angles and levels sampled on both sides of each branch; oracle: own '
    'transcription; dispatchers against the level functions and against '
    'their limits; non-trivial = distinct (function, value to 3 digits)',
    required={'mon:value': 2000, 'mon:kinds': 500, 'mon:pure': 500, 'mon:reject': 100,
              'mon:warn': 100, 'mon:monotone': 100, 'mon:limit': 500, 'mon:dispatch': 500,
              'mon:factor': 300},
)

rad = math.radians


def cot(x):
    return math.cos(rad(x)) / math.sin(rad(x))


def signed(s):
    def q(r, a):
        v = s(r, a)
        return -v if r.integers(2) else v
    return q


FCK = U(12, 90, 12, 30, 50, 60, 70, 90)
FCKM = U(12, 120, 12, 25, 30, 40, 64, 70, 80, 120)
D = L(50, 3000, 200, 500)
BW = L(50, 2000, 300)
GC = U(1.0, 1.8, 1.0, 1.2, 1.5)
GS = U(1.0, 1.4, 1.0, 1.15)
TH = U(21.81, 45, 45, 21.81, 30)      # 1 <= cot <= 2.5 to two decimals
THM = U(15, 60, 20, 45, 30)
ALPHA = U(45, 90, 45, 90, 60)
BADTH = [dict(theta=U(5, 21.7)), dict(theta=U(45.3, 89))]


# ----------------------------------------------------------------- EC2:2004
def k4(d):
    return min(1 + math.sqrt(200 / d), 2.0)


def vmin(fck, d):
    return 0.035 * k4(d) ** 1.5 * math.sqrt(fck)


def ref_VRdc(fck, d, Asl, bw, NEd, Ac, fcd, k1=0.15, gamma_c=1.5, CRdc=None):
    c = 0.18 / gamma_c if CRdc is None else CRdc
    s = min(NEd / Ac, 0.2 * fcd)
    v = max(c * k4(d) * (100 * min(Asl / bw / d, 0.02) * fck) ** (1 / 3), vmin(fck, d)) + k1 * s
    return max(v, 0) * bw * d


def ref_prin(Iy, bw, S, fctd, NEd, Ac, L_x=None, L_pt2=None):
    al = 1.0 if L_x is None or L_pt2 is None else min(L_x / L_pt2, 1.0)
    return Iy * bw / S * math.sqrt(fctd ** 2 + al * NEd / Ac * fctd)


def v4(fck):
    return 0.6 * (1 - fck / 250)


def v14(fck):
    return 0.6 if fck <= 60 else max(0.9 - fck / 200, 0.5)


def acw(Ned, Ac, fcd):
    q = Ned / Ac / fcd
    if q <= 0:
        return 1.0
    if q <= 0.25:
        return 1 + q
    if q <= 0.5:
        return 1.25
    return 2.5 * (1 - q)


def ref_VRds(Asw, s, z, theta, fyk, alpha=90.0, gamma_s=1.15):
    return Asw / s * z * fyk / gamma_s * (cot(theta) + cot(alpha)) * math.sin(rad(alpha))


def ref_req(Ved, z, theta, fywd, alpha=90.0):
    return Ved / (z * fywd * (cot(theta) + cot(alpha)) * math.sin(rad(alpha)))


def ref_VRdmax(bw, z, fck, theta, NEd, Ac, fcd, alpha=90.0, limit_fyd=False):
    nu = v14(fck) if limit_fyd else v4(fck)
    return acw(NEd, Ac, fcd) * bw * z * nu * fcd * (cot(theta) + cot(alpha)) / (1 + cot(theta) ** 2)


def ref_aswmax(fcd, fck, bw, s, fywd, NEd, Ac, alpha=90.0):
    return 0.5 * acw(NEd, Ac, fcd) * v4(fck) * fcd * bw * s / fywd / math.sin(rad(alpha))


def ned(lo, hi):
    """Axial force as a share of Ac*fcd, both sampled before; compression +."""
    def s(r, a):
        q = float(r.uniform(lo, hi))
        if r.integers(4) == 0:
            q = float(r.choice([x for x in (0, 0.2, 0.25, 0.5) if lo <= x <= hi]))
        return q * a['Ac'] * a['fcd']
    return s


def near_step(a, n='NEd'):
    """At 1-ulp from the ends of the branches (all joins are continuous
    except that the code refuses sigma_cp >= fcd)."""
    return a[n] / a['Ac'] / a['fcd'] > 0.999999


AC = L(1e4, 4e6)
FCD = U(8, 60)


# ------------------------------------------------------------------- MC2010
def loads(r, a):
    k = int(r.integers(5))
    big = float(np.exp(r.uniform(math.log(1e4), math.log(2e6))))
    return {'Med': float(r.choice([0, 1, -1, 1, -1])) * 200 * big * float(r.uniform(0, 3)),
            'Ved': float(r.choice([1, -1])) * big * float(r.uniform(0, 1)),
            'Ned': 0.0 if k == 0 else big * float(r.uniform(-3, 3)),
            'delta_e': float(r.choice([0, 50, -50]))}


def epx(E_s, As, z, loads):
    m, v, n, e = (loads[k] for k in ('Med', 'Ved', 'Ned', 'delta_e'))
    return max((abs(m) / z + abs(v) + n * (0.5 + e / z)) / (2 * E_s * As), 0.0)


def etafc(fck):
    return min((30 / fck) ** (1 / 3), 1.0)


def strut(theta, alpha):
    return (cot(theta) + cot(alpha)) / (1 + cot(theta) ** 2)


def keps(ex, theta):
    return min(1 / (1.2 + 55 * (ex + (ex + 0.002) * cot(theta) ** 2)), 0.65)


def vmax(approx_lvl, fck, bw, theta, z, E_s=None, As=None, loads=None, alpha=90.0, gamma_c=1.5):
    if approx_lvl == 1:
        k = 0.55
    else:
        ex = epx(E_s, As, z, loads)
        if approx_lvl == 3:
            theta = 20 + 10000 * ex
        k = keps(ex, theta)
    return k * etafc(fck) * fck / gamma_c * bw * z * strut(theta, alpha)


def vrdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha=90.0, gamma_c=1.5):
    f = min(math.sqrt(fck), 8.0)
    if approx_lvl == 1:
        kv = 180 / (1000 + 1.25 * z)
    else:
        ex = epx(E_s, As, z, loads)
        kv = 0.4 / (1 + 1500 * ex)
        if approx_lvl == 2:
            kdg = max(32 / (16 + (0 if fck > 70 else dg)), 0.75)
            kv *= 1300 / (1000 + kdg * z)
        else:
            kv *= max(1 - abs(loads['Ved']) / vmax(3, fck, bw, None, z, E_s, As, loads, alpha, gamma_c), 0)
    return kv * f * z * bw / gamma_c


def vrds(asw, sw, z, f_ywk, theta=45.0, alpha=90.0, gamma_s=1.15):
    return asw / sw * z * f_ywk / gamma_s * (cot(theta) + cot(alpha)) * math.sin(rad(alpha))


def vrd(approx_lvl, with_shear_reinforcment, fck, z, bw, dg, E_s, As, loads, asw=None, sw=None, f_ywk=None,
        theta=None, alpha=90.0, gamma_c=1.5, gamma_s=1.15):
    if not with_shear_reinforcment:
        return vrdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha, gamma_c)
    s = vrds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
    if approx_lvl == 3:
        c = vrdc(3, fck, z, bw, dg, E_s, As, loads, alpha, gamma_c)
        if c + s < vmax(3, fck, bw, theta, z, E_s, As, loads, alpha, gamma_c):
            return c + s
        approx_lvl = 2
    return min(s, vmax(approx_lvl, fck, bw, theta, z, E_s, As, loads, alpha, gamma_c))


def vrd_near(a):
    """The level 3 switch decided by round-off."""
    if a['approx_lvl'] != 3 or not a['with_shear_reinforcment']:
        return False
    kw = {k: a[k] for k in ('alpha', 'gamma_c') if k in a}
    g = {k: a[k] for k in ('alpha', 'gamma_s') if k in a}
    c = vrdc(3, a['fck'], a['z'], a['bw'], a['dg'], a['E_s'], a['As'], a['loads'], **kw)
    s = vrds(a['asw'], a['sw'], a['z'], a['f_ywk'], a['theta'], **g)
    m = vmax(3, a['fck'], a['bw'], a['theta'], a['z'], a['E_s'], a['As'], a['loads'], **kw)
    return abs(c + s - m) < 1e-9 * m


def steep(a):
    """Keep the strain-dependent strut angle of level 3 physical."""
    return 'loads' in a and 20 + 10000 * epx(a['E_s'], a['As'], a['z'], a['loads']) > 85


def ct1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0):
    return 0.8 * i_c * b_w / s_c * math.sqrt(f_ctd ** 2 + l_x / (1.2 * l_bd0) * sigma_cp * f_ctd)


def ct2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c, A_c, A_cy, y_pt, f_p_lx, f_p_lx_dx, known=False):
    # MC2010 eq. 7.3-48: axial plus eccentric prestress
    if known:
        s = (y_c - y) / i_c / A_c * f_p_lx
    else:
        s = (1 / A_c + (y_c - y) * (y_c - y_pt) / i_c) * f_p_lx
    t = (A_cy / A_c - S_cy * (y_c - y_pt) / i_c) * f_p_lx_dx / b_wy
    return i_c * b_wy / S_cy * (math.sqrt(f_ctd ** 2 + l_x / (1.2 * l_bd0) * s * f_ctd) - t)


def ct2_wrong(**a):
    return ct2(**a, known=True)


def ct2_skip(a):
    try:
        ct2(**a), ct2(**a, known=True)
    except ValueError:
        return True
    return False


def dct(level):
    def f(approx_lvl_h, f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0, **k):
        if approx_lvl_h == 1:
            return ct1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0)
        return ct2(f_ctd, i_c, l_x, l_bd0, **k, known=level)
    return f


def dct_skip(a):
    try:
        dct(False)(**{**a, 'approx_lvl_h': 2}), dct(True)(**{**a, 'approx_lvl_h': 2})
    except ValueError:
        return True
    return False


PREST = dict(f_ctd=U(0.8, 3), i_c=L(1e8, 1e11), s_c=L(1e6, 1e9), b_w=BW, sigma_cp=U(0, 12, 0), l_bd0=U(300, 2000),
             l_x=lambda r, a: a['l_bd0'] * (1.2 if r.integers(5) == 0 else float(r.uniform(0, 1.2))),
             S_cy=L(1e6, 1e9), b_wy=BW, y_c=U(100, 900), y=lambda r, a: a['y_c'] * float(r.uniform(0, 1.5)),
             A_c=AC, A_cy=lambda r, a: a['A_c'] * float(r.uniform(0, 1)), y_pt=U(40, 200), f_p_lx=L(1e4, 5e6),
             f_p_lx_dx=U(0, 2000, 0))
CT1 = ('f_ctd', 'i_c', 's_c', 'b_w', 'sigma_cp', 'l_bd0', 'l_x')
CT2 = ('f_ctd', 'i_c', 'l_bd0', 'l_x', 'S_cy', 'b_wy', 'y_c', 'y', 'A_c', 'A_cy', 'y_pt', 'f_p_lx', 'f_p_lx_dx')


# torsion
def ttheta(approx_lvl, z, E_s, As, loads, theta):
    if approx_lvl == 1:
        return 0.55
    ex = epx(E_s, As, z, loads)
    return keps(ex, 20 + 10000 * ex if approx_lvl == 3 else theta)


def trdmax(f_ck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads, gamma_c=1.5):
    return (ttheta(approx_lvl, z, E_s, As, loads, theta) * etafc(f_ck) * f_ck / gamma_c
            * d_k / 8 * 2 * a_k * math.sin(rad(theta)) * math.cos(rad(theta)))


def tratio(t_ed, approx_lvl, fck, bw, theta, z, E_s, As, loads, d_k, a_k, alpha=90.0, gamma_c=1.5):
    return ((t_ed / trdmax(fck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads, gamma_c)) ** 2
            + (loads['Ved'] / vmax(approx_lvl, fck, bw, theta, z, E_s, As, loads, alpha, gamma_c)) ** 2)


def ted(r, a):
    """Torque around the interaction limit."""
    b = {k: a[k] for k in ('approx_lvl', 'fck', 'bw', 'theta', 'z', 'E_s', 'As', 'loads', 'd_k', 'a_k')}
    t = trdmax(b['fck'], b['d_k'], b['a_k'], b['theta'], b['approx_lvl'], b['z'], b['E_s'], b['As'], b['loads'])
    return t * float(r.choice([1, 1, -1])) * float(r.uniform(0, 1.3))


SHEARW = dict(fck=FCKM, z=L(80, 2500), bw=BW, dg=U(0, 40, 0, 16, 32, 26.667), E_s=U(1.95e5, 2.1e5, 2e5),
              As=L(300, 3e4), loads=loads)


# punching
def ref_med(v_ed, e_u, b_s, inner, edge_par, edge_per, corner):
    e = abs(e_u) / b_s
    if inner:
        return v_ed * (1 / 8 + e / 2)
    if edge_par:
        return v_ed * max(1 / 8 + e / 2, 1 / 4)
    if edge_per:
        return v_ed * (1 / 8 + e)
    return v_ed * max(1 / 8 + e, 1 / 2)


def place(n):
    """One-hot placement flags drawn with the first flag."""
    names = ('inner', 'edge_par', 'edge_per', 'corner')

    def s(r, a):
        if n == 'inner':
            a['_p'] = int(r.integers(4))
        v = names.index(n) == a['_p']
        if n == 'corner':
            del a['_p']
        return bool(v)
    return s


def ref_rs(l_x, l_y, x_direction, is_level_three_approximation=False, column_edge_or_corner=False, b_sr=None):
    v = 0.22 * (l_x if x_direction else l_y)
    return max(v, 0.67 * b_sr) if is_level_three_approximation and column_edge_or_corner else v


def ref_psi2(r_s, f_yd, d_eff, e_s, m_ed, m_rd, m_Pd=0):
    return 1.5 * r_s * f_yd / (d_eff * e_s) * ((m_ed - m_Pd) / (m_rd - m_Pd)) ** 1.5


def ref_sswd(e_s, psi_punching, alpha, f_bd, d_eff, f_ywd, phi_w):
    s, c = math.sin(rad(alpha)), math.cos(rad(alpha))
    return min(e_s * psi_punching / 6 * (s + c) * (s + f_bd * d_eff / (f_ywd * phi_w)), f_ywd)


def ref_rdsp(f_ywd, e_u, b_u, alpha, sigma_swd, a_sw, v_ed):
    return a_sw * sigma_swd * math.sin(rad(alpha)) / (1 + e_u / b_u)


def rdsp_warn(a):
    q = a['a_sw'] * a['f_ywd'] / (1 + a['e_u'] / a['b_u']) / (0.5 * a['v_ed'])
    return None if abs(q - 1) < 1e-9 else q < 1


def ref_vmaxp(d_v, f_ck, d_head, stirrups_compression, b0_val, k_psi_val, gamma_c=1.5):
    k = 2.8 if d_head else 2.4 if stirrups_compression else 2.0
    return min(k * k_psi_val, 1.0) * b0_val * d_v * math.sqrt(f_ck) / gamma_c


# interface
def nu(f_ck):
    return 0.55 * min((30 / f_ck) ** (1 / 3), 1.0)


def ref_int(c_r, k1, k2, mu, ro, sigma_n, alpha, beta_c, f_ck, f_yd, f_cd):
    return min(c_r * f_ck ** (1 / 3) + mu * sigma_n
               + k1 * ro * f_yd * (mu * math.sin(rad(alpha)) + math.cos(rad(alpha)))
               + k2 * ro * math.sqrt(f_yd * f_cd), beta_c * nu(f_ck) * f_cd)


# bond
GOOD = C('good', 'Good', 'GOOD')
BOND = C('good', 'other', 'Good', 'OTHER', 'oTher')
NOBOND = C('', 'bad', 'poor', None, 1, 'good ', ['good'])


def good(b, x, y):
    return x if b.lower() == 'good' else y


def ref_s3(failmod, bond, confinement, c_clear, s_1):
    if failmod.lower() == 'po':
        return c_clear
    return 1.2 * s_1 if confinement.lower() == 'unconfined' else 0.5 * c_clear


def fstm_warn(a):
    q = [(a['f_cm'], 15), (a['f_cm'], 110), (a['c_min'] / a['phi'], 0.5), (a['c_min'] / a['phi'], 3.5),
         (a['c_max'] / a['c_min'], 1.0), (a['c_max'] / a['c_min'], 5.0), (a['K_tr'], 0.05)]
    if any(x != y and abs(x - y) < 1e-12 for x, y in q):
        return None
    return not (15 < a['f_cm'] < 110 and 0.5 < a['c_min'] / a['phi'] < 3.5
                and 1.0 < a['c_max'] / a['c_min'] < 5.0 and a['K_tr'] <= 0.05)


COVER = dict(phi=U(6, 40, 25), c_min=lambda r, a: a['phi'] * float(r.uniform(0.6, 3.4) if r.integers(3) else r.uniform(0.3, 5)),
             c_max=lambda r, a: a['c_min'] * float(r.uniform(1.01, 4.9) if r.integers(3) else r.uniform(1, 7)),
             k_m=C(0, 6, 12), K_tr=U(0, 0.06, 0, 0.05))


def sel(d, *names):
    return {k: d[k] for k in names}


LVL = C(1, 2, 3)
NOLVL = C(0, 4, -1, 5)

FNS = [
    # ------------------------------------------------------------- EC2:2004
    Fn(e4.VRdc, ref_VRdc, opt=('k1', 'gamma_c', 'CRdc'), fck=FCK, d=D, Asl=lambda r, a: float(r.uniform(0, 0.03)) * 300 * a['d'],
       bw=L(100, 2000, 300), Ac=AC, fcd=FCD, NEd=ned(-0.5, 0.9), k1=U(0, 0.3, 0.15), gamma_c=GC, CRdc=U(0.05, 0.3, 0.12)),
    Fn(e4.VRdc_prin_stress, ref_prin, opt=('L_x', 'L_pt2'), Iy=L(1e8, 1e11), bw=BW, S=L(1e6, 1e9), fctd=U(0.8, 3),
       Ac=AC, NEd=lambda r, a: a['Ac'] * float(r.uniform(0, 12)), L_pt2=U(300, 2000),
       L_x=lambda r, a: a['L_pt2'] * float(r.choice([0, 1, 2]) if r.integers(3) == 0 else r.uniform(0, 1.5))),
    Fn(e4.VEdmax_unreinf, lambda bw, d, fck, fcd: 0.5 * bw * d * v4(fck) * fcd, bw=BW, d=D, fck=FCK, fcd=FCD),
    Fn(sh.vmin, vmin, name='shear.vmin', fck=FCK, d=D), Fn(sh.v, v4, name='shear.v', fck=FCK),
    Fn(sh.v1, v14, name='shear.v1', fck=FCK),
    Fn(sh.alpha_cw, acw, name='shear.alpha_cw', rtol=1e-8, Ac=AC, fcd=FCD,
       Ned=lambda r, a: ned(-0.5, 0.99)(r, a), skip=lambda a: near_step(a, 'Ned'),
       reject=[dict(Ac=K(1e5), fcd=K(20.0), Ned=U(2.0001e6, 4e6))]),
    Fn(e4.VRds, ref_VRds, opt=('alpha', 'gamma_s'), Asw=L(20, 2000), s=L(50, 500), z=D, theta=TH, fyk=U(200, 600, 500),
       alpha=ALPHA, gamma_s=GS, reject=BADTH),
    Fn(e4.Asw_s_required, ref_req, opt=('alpha',), Ved=L(1e3, 1e7), z=D, theta=TH, fywd=U(200, 600), alpha=ALPHA),
    Fn(e4.VRdmax, ref_VRdmax, rtol=1e-8, opt=('alpha', 'limit_fyd'), bw=BW, z=D, fck=FCK, theta=TH, Ac=AC, fcd=FCD,
       NEd=ned(-0.5, 0.99), alpha=ALPHA, limit_fyd=C(True, False), skip=near_step, reject=BADTH),
    Fn(e4.Asw_max, ref_aswmax, rtol=1e-8, opt=('alpha',), fcd=FCD, fck=FCK, bw=BW, s=L(50, 500), fywd=U(200, 600),
       Ac=AC, NEd=ned(-0.5, 0.99), alpha=ALPHA, skip=near_step),
    # --------------------------------------------------------- MC2010 shear
    Fn(mc.epsilon_x, epx, rtol=1e-8, atol=1e-15, **sel(SHEARW, 'E_s', 'As', 'z', 'loads')),
    Fn(mc.eta_fc, etafc, fck=FCKM),
    Fn(mc.create_load_dict, lambda Med, Ved, Ned, delta_e: dict(Med=Med, Ved=Ved, Ned=Ned, delta_e=delta_e),
       Med=U(-1e8, 1e8, 0), Ved=U(-1e6, 1e6), Ned=U(-1e6, 1e6, 0), delta_e=U(-100, 100, 0)),
    Fn(mc.v_rdc_approx1, lambda fck, z, bw, gamma_c=1.5: vrdc(1, fck, z, bw, 0, 1, 1, None, 90, gamma_c),
       opt=('gamma_c',), **sel(SHEARW, 'fck', 'z', 'bw'), gamma_c=GC),
    Fn(mc.v_rdc_approx2, lambda gamma_c=1.5, **k: vrdc(2, gamma_c=gamma_c, **k), opt=('gamma_c',), rtol=1e-8, **SHEARW, gamma_c=GC),
    Fn(mc.v_rdc_approx3, lambda approx_lvl, **k: vrdc(3, dg=0, **k), opt=('alpha', 'gamma_c'), rtol=1e-7, atol=1e-3, approx_lvl=K(3),
       **sel(SHEARW, 'fck', 'z', 'bw', 'E_s', 'As', 'loads'), alpha=ALPHA, gamma_c=GC, skip=steep),
    Fn(mc.v_rdc, vrdc, opt=('alpha', 'gamma_c'), rtol=1e-7, atol=1e-3, approx_lvl=LVL, **SHEARW, alpha=ALPHA, gamma_c=GC, skip=steep,
       reject=[dict(approx_lvl=NOLVL)]),
    Fn(mc.v_rds, vrds, opt=('theta', 'alpha', 'gamma_s'), asw=L(20, 2000), sw=L(50, 500), z=D, f_ywk=U(200, 600, 500),
       theta=THM, alpha=ALPHA, gamma_s=GS, warn=lambda a: not 20 <= a.get('theta', 45.0) <= 45),
    Fn(mc.v_rd_max_approx1, lambda **k: vmax(1, **k), opt=('alpha', 'gamma_c'), **sel(SHEARW, 'fck', 'bw'), theta=THM, z=D,
       alpha=ALPHA, gamma_c=GC),
    Fn(mc.v_rd_max_approx2, lambda **k: vmax(2, **k), opt=('alpha', 'gamma_c'), rtol=1e-8, **sel(SHEARW, 'fck', 'bw', 'z', 'E_s', 'As', 'loads'),
       theta=THM, alpha=ALPHA, gamma_c=GC),
    Fn(mc.v_rd_max_approx3, lambda **k: vmax(3, theta=None, **k), opt=('alpha', 'gamma_c'), rtol=1e-8,
       **sel(SHEARW, 'fck', 'bw', 'z', 'E_s', 'As', 'loads'), alpha=ALPHA, gamma_c=GC, skip=steep),
    Fn(mc.v_rd_max, vmax, opt=('alpha', 'gamma_c'), rtol=1e-8, approx_lvl=LVL, theta=THM,
       **sel(SHEARW, 'fck', 'bw', 'z', 'E_s', 'As', 'loads'), alpha=ALPHA, gamma_c=GC, skip=steep,
       reject=[dict(approx_lvl=NOLVL)]),
    Fn(mc.v_rd, vrd, opt=('alpha', 'gamma_c', 'gamma_s'), rtol=1e-7, atol=1e-3, approx_lvl=LVL, with_shear_reinforcment=C(True, False), **SHEARW,
       asw=L(20, 2000), sw=L(50, 500), f_ywk=U(200, 600, 500), theta=THM, alpha=ALPHA, gamma_c=GC, gamma_s=GS,
       skip=lambda a: steep(a) or vrd_near(a),
       warn=lambda a: (a['approx_lvl'] == 3) if not a['with_shear_reinforcment'] else not 20 <= a['theta'] <= 45,
       reject=[dict(approx_lvl=NOLVL, with_shear_reinforcment=C(True, False))]),
    Fn(mc.v_rd_ct_approx1, ct1, **sel(PREST, *CT1)),
    Fn(mc.v_rd_ct_approx2, ct2, rtol=1e-7, atol=1e-3, wrong=('v_rd_ct:sigma_cpy', ct2_wrong), skip=ct2_skip, **sel(PREST, *CT2)),
    Fn(mc.v_rd_ct, dct(False), rtol=1e-7, atol=1e-3, wrong=('v_rd_ct:sigma_cpy', dct(True)), skip=dct_skip, approx_lvl_h=C(1, 2), **PREST,
       reject=[dict(approx_lvl_h=C(0, 3, 4))]),
    # -------------------------------------------------------------- torsion
    Fn(mc.v_ed_ti, lambda t_ed, a_k, z_i: t_ed * z_i / (2 * a_k), t_ed=U(-1e9, 1e9), a_k=L(1e4, 1e6), z_i=D),
    Fn(mc.t_rd_max, trdmax, opt=('gamma_c',), rtol=1e-8, f_ck=FCKM, d_k=L(100, 1500), a_k=L(1e4, 1e6), theta=THM, approx_lvl=LVL,
       **sel(SHEARW, 'z', 'E_s', 'As', 'loads'), gamma_c=GC, skip=steep, reject=[dict(approx_lvl=NOLVL)]),
    Fn(mc.t_rd, lambda **k: tratio(**k) <= 1, opt=('alpha', 'gamma_c'), approx_lvl=LVL, theta=THM,
       **sel(SHEARW, 'fck', 'bw', 'z', 'E_s', 'As', 'loads'), d_k=L(100, 1500), a_k=L(1e4, 1e6), t_ed=ted, alpha=ALPHA, gamma_c=GC,
       skip=lambda a: steep(a) or abs(tratio(**a) - 1) < 1e-6, reject=[dict(approx_lvl=NOLVL)]),
    # ------------------------------------------------------------- punching
    Fn(mc.b_0, lambda v_ed, v_prep_d_max: v_ed / v_prep_d_max, v_ed=L(1e3, 1e7), v_prep_d_max=L(1, 1e4)),
    Fn(mc.b_s, lambda l_x, l_y: min(1.5 * 0.22 * math.sqrt(l_x * l_y), l_x, l_y), l_x=L(500, 15000), l_y=L(500, 15000)),
    Fn(mc.b_sr, lambda l_x, l_y: min(l_x, l_y), l_x=L(500, 15000), l_y=L(500, 15000)),
    Fn(mc.m_ed, ref_med, joint=('inner', 'edge_par', 'edge_per', 'corner'), v_ed=L(1e3, 1e7), e_u=U(-800, 800, 0), b_s=L(300, 6000), inner=place('inner'),
       edge_par=place('edge_par'), edge_per=place('edge_per'), corner=place('corner'),
       reject=[dict(inner=False, edge_par=False, edge_per=False, corner=False)]),
    Fn(mc.r_s, ref_rs, opt=('is_level_three_approximation', 'column_edge_or_corner'), l_x=L(500, 15000), l_y=L(500, 15000),
       x_direction=C(True, False), is_level_three_approximation=C(True, False), column_edge_or_corner=C(True, False), b_sr=L(300, 9000),
       reject=[dict(is_level_three_approximation=True, column_edge_or_corner=True, b_sr=None)]),
    Fn(mc.psi_punching_level_one, lambda l_x, l_y, f_yd, d_eff, e_s: 1.5 * 0.22 * max(l_x, l_y) * f_yd / (d_eff * e_s),
       l_x=L(500, 15000), l_y=L(500, 15000), f_yd=U(200, 600), d_eff=L(80, 1500), e_s=U(1.95e5, 2.1e5, 2e5)),
    Fn(mc.psi_punching_level_two, ref_psi2, opt=('m_Pd',), r_s=L(100, 4000), f_yd=U(200, 600), d_eff=L(80, 1500),
       e_s=U(1.95e5, 2.1e5, 2e5), m_rd=U(3e4, 3e5), m_ed=U(1.1e4, 4e5), m_Pd=U(0, 1e4, 0)),
    Fn(mc.psi_punching_level_three, lambda psi_punching_level_two, is_uncracked_model=False, is_moment_from_uncracked_model=False:
       psi_punching_level_two * (0.8 if is_uncracked_model and is_moment_from_uncracked_model else 1.0),
       opt=('is_uncracked_model', 'is_moment_from_uncracked_model'), psi_punching_level_two=L(1e-4, 0.1),
       is_uncracked_model=C(True, False), is_moment_from_uncracked_model=C(True, False)),
    Fn(mc.psi_punching, lambda approx_lvl_p, **k: (k['psi_punching_level_one'], k['psi_punching_level_two'],
                                                  k['psi_punching_level_three'])[int(approx_lvl_p) - 1],
       psi_punching_level_one=L(1e-4, 0.1), psi_punching_level_two=L(1e-4, 0.1), psi_punching_level_three=L(1e-4, 0.1),
       approx_lvl_p=LVL, reject=[dict(approx_lvl_p=C(0, 4, -1, 2.5))]),
    Fn(mc.k_dg, lambda d_g: max(32 / (16 + d_g), 0.75), d_g=U(0, 40, 0, 16, 32)),
    Fn(mc.k_psi, lambda k_dg, d_eff, psi_punching: min(1 / (1.5 + 0.9 * k_dg * d_eff * psi_punching), 0.6),
       k_dg=U(0.75, 2), d_eff=L(80, 1500), psi_punching=L(1e-6, 0.1)),
    Fn(mc.v_rdc_punching, lambda k_psi_val, b_0, d_v, f_ck, gamma_c=1.5: k_psi_val * b_0 * d_v * math.sqrt(f_ck) / gamma_c,
       opt=('gamma_c',), k_psi_val=U(0.05, 0.6), b_0=L(200, 9000), d_v=L(80, 1500), f_ck=FCKM, gamma_c=GC),
    Fn(pu.f_ywd, lambda f_ywk, gamma_s: f_ywk / gamma_s, f_ywk=U(200, 600), gamma_s=GS),
    Fn(mc.sigma_swd, ref_sswd, e_s=U(1.95e5, 2.1e5), psi_punching=L(1e-4, 0.1), alpha=ALPHA, f_bd=U(1, 6), d_eff=L(80, 1500),
       f_ywd=U(200, 500), phi_w=U(6, 20)),
    Fn(mc.v_rds_punching, ref_rdsp, f_ywd=U(200, 500), e_u=U(0, 500, 0), b_u=L(200, 5000), alpha=ALPHA, sigma_swd=U(20, 500),
       a_sw=L(50, 9000), v_ed=L(1e4, 4e6), warn=rdsp_warn),
    Fn(mc.v_rd_max_punching, ref_vmaxp, opt=('gamma_c',), d_v=L(80, 1500), f_ck=FCKM, d_head=C(True, False),
       stirrups_compression=C(True, False), b0_val=L(200, 9000), k_psi_val=U(0.05, 0.6, 0.5, 0.6), gamma_c=GC),
    Fn(mc.v_rd_punching, lambda v_rd_c, v_rd_s, v_rd_max: min(v_rd_c + v_rd_s, v_rd_max), v_rd_c=L(1e3, 1e6),
       v_rd_s=L(1e3, 1e6), v_rd_max=L(1e4, 2e6)),
    # ------------------------------------------------------------ interface
    Fn(mc.tau_edi, lambda beta, v_ed, z, b_i: beta * v_ed / (z * b_i), beta=U(0, 1), v_ed=L(1e3, 1e7), z=D, b_i=BW),
    Fn(mc.tau_rdi_without_reinforcement, lambda c_a, f_ctd, mu, sigma_n, f_ck, f_cd: min(c_a * f_ctd + mu * sigma_n, 0.5 * nu(f_ck) * f_cd),
       c_a=C(0.025, 0.2, 0.4, 0.5), f_ctd=U(0.8, 3), mu=U(0.5, 1), sigma_n=U(0, 12, 0), f_ck=FCKM, f_cd=U(8, 70)),
    Fn(mc.tau_rdi_with_reinforcement, ref_int, c_r=C(0, 0.1, 0.2), k1=C(0, 0.5), k2=C(0.9, 1.1, 1.5), mu=U(0.5, 1.4), ro=U(0, 0.03, 0),
       sigma_n=U(0, 8, 0), alpha=U(45, 135, 45, 90), beta_c=C(0.4, 0.5), f_ck=FCKM, f_yd=U(200, 500), f_cd=U(8, 70)),
    # ----------------------------------------------------------------- bond
    Fn(mc.eta_2, lambda bond: good(bond, 1.0, 0.7), bond=BOND, reject=[dict(bond=NOBOND)]),
    Fn(mc.tau_bu_split, lambda eta_2, f_cm, phi, c_min, c_max, k_m, K_tr: eta_2 * 6.5 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2
       * ((c_min / phi) ** 0.33 * (c_max / c_min) ** 0.1 + k_m * K_tr), eta_2=C(1.0, 0.7), f_cm=U(15, 110), **COVER),
    Fn(mc.K_tr, lambda n_t, A_st, n_b, phi, s_t: min(n_t * A_st / (n_b * phi * s_t), 0.05), n_t=C(1, 2, 4), A_st=L(10, 400),
       n_b=C(1, 2, 3, 6), phi=U(6, 40), s_t=L(50, 400)),
    Fn(mc.tau_bmax, lambda bond, f_cm: good(bond, 2.5, 1.25) * math.sqrt(f_cm), bond=BOND, f_cm=U(15, 130), reject=[dict(bond=NOBOND)]),
    Fn(mc.s_1, lambda bond: good(bond, 1.0, 1.8), bond=BOND, reject=[dict(bond=NOBOND)]),
    Fn(mc.s_2, lambda bond: good(bond, 2.0, 3.6), bond=BOND, reject=[dict(bond=NOBOND)]),
    Fn(mc.s_3, ref_s3, failmod=C('PO', 'SP', 'po', 'sp', 'Sp'), bond=BOND, confinement=C('unconfined', 'stirrups', 'Unconfined', 'STIRRUPS'),
       c_clear=U(5, 100), s_1=C(1.0, 1.8), reject=[dict(bond=NOBOND), dict(failmod=C('', None, 'x', 'pop')),
                                                   dict(failmod='SP', confinement=C('', None, 'none'))]),
    Fn(mc.s_tau_bu_split, lambda tau_bmax, tau_bu_split, alpha, s_1: (tau_bu_split / tau_bmax) ** (1 / alpha) * s_1,
       tau_bmax=U(5, 30), tau_bu_split=U(1, 30), alpha=U(0.1, 1, 0.4), s_1=C(1.0, 1.8)),
    Fn(mc.f_stm, lambda f_cm, phi, l_b, c_min, c_max, k_m, K_tr: 54 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2 * (l_b / phi) ** 0.55
       * ((c_min / phi) ** 0.25 * (c_max / c_min) ** 0.1 + k_m * K_tr), f_cm=U(10, 120, 15, 110), **COVER,
       l_b=L(50, 3000), warn=fstm_warn),
    Fn(mc.tau_yield, lambda f_y, l_b, phi: f_y * phi / (4 * l_b), f_y=U(200, 700), l_b=L(50, 3000), phi=U(6, 40)),
]


@M.family(quick=500 * len(FNS), thorough=3000 * len(FNS), timeout=60)
def values(ctx):
    watch(ctx, FNS[ctx.index % len(FNS)], n=30)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


F_VRD = next(f for f in FNS if f.fn is mc.v_rd)


@M.family(quick=3000, thorough=10000)
def dispatch(ctx):
    """v_rd and friends against the functions of the level and the limits."""
    r = ctx.rng
    a = F_VRD.sample(r)
    for k, v in (('alpha', 90.0), ('gamma_c', 1.5), ('gamma_s', 1.15)):
        a.setdefault(k, v)
    lo = copy.deepcopy(a['loads'])
    base = {k: a[k] for k in ('fck', 'z', 'bw', 'dg', 'E_s', 'As', 'loads')}
    steel = {k: a[k] for k in ('asw', 'sw', 'f_ywk', 'theta')}
    sec = {k: a[k] for k in ('fck', 'bw', 'z', 'E_s', 'As', 'loads', 'alpha', 'gamma_c')}
    got = {}
    for lvl in (1, 2, 3):
        c = quiet(mc.v_rdc, lvl, **base, alpha=a['alpha'], gamma_c=a['gamma_c'])
        m = quiet(mc.v_rd_max, lvl, theta=a['theta'], **sec)
        s = quiet(mc.v_rds, **{k: steel[k] for k in steel}, z=a['z'], alpha=a['alpha'], gamma_s=a['gamma_s'])
        n = quiet(mc.v_rd, lvl, False, **base, alpha=a['alpha'], gamma_c=a['gamma_c'], gamma_s=a['gamma_s'])
        w = quiet(mc.v_rd, lvl, True, **base, **steel, alpha=a['alpha'], gamma_c=a['gamma_c'], gamma_s=a['gamma_s'])
        got[lvl] = c, m, s, n, w
        ctx.close('dispatch', n, c, rtol=1e-12, atol=1e-12, key='v_rd:unreinforced')
        if lvl < 3:
            ctx.close('dispatch', w, min(s, m), rtol=1e-12, key=f'v_rd:level{lvl}')
        elif c + s < m * (1 - 1e-9):
            ctx.close('dispatch', w, c + s, rtol=1e-12, key='v_rd:level3')
        elif c + s > m * (1 + 1e-9):
            ctx.close('dispatch', w, min(s, got[2][1]), rtol=1e-12, key='v_rd:level3 fallback')
        cap = m if lvl < 3 else max(m, got[2][1])
        ctx.check('limit', w <= cap * (1 + 1e-9), 'cap:v_rd', 'resistance above the strut limit', level=lvl,
                  v_rd=w, v_rd_max=m)
        ctx.check('limit', min(c, m, s, n, w) >= 0, 'negative:v_rd', 'negative resistance', level=lvl, values=got[lvl])
        # each partial factor divides once
        kw = dict(alpha=a['alpha'])
        if lvl < 3:
            ctx.close('factor', c * a['gamma_c'], quiet(mc.v_rdc, lvl, **base, **kw, gamma_c=1.0), rtol=1e-9, key=f'gamma_c:v_rdc{lvl}')
        one = {**sec, 'gamma_c': 1.0}
        ctx.close('factor', m * a['gamma_c'], quiet(mc.v_rd_max, lvl, theta=a['theta'], **one), rtol=1e-9, key=f'gamma_c:v_rd_max{lvl}')
        ctx.close('factor', s * a['gamma_s'], quiet(mc.v_rds, **steel, z=a['z'], alpha=a['alpha'], gamma_s=1.0), rtol=1e-9, key='gamma_s:v_rds')
        # signs of shear and moment do not matter
        flip = {**base, 'loads': {**a['loads'], 'Ved': -a['loads']['Ved'], 'Med': -a['loads']['Med']}}
        ctx.close('dispatch', quiet(mc.v_rd, lvl, True, **flip, **steel, alpha=a['alpha'], gamma_c=a['gamma_c'], gamma_s=a['gamma_s']),
                  w, rtol=1e-12, key='sign:v_rd')
        ctx.sig(lvl, float(f'{w:.3g}'), int(w == s), int(w == m))
    ctx.check('dispatch', a['loads'] == lo, 'mutates:loads', 'the load dictionary was changed')
    # direction in the loads
    up = [float(x) for x in np.sort(r.uniform(0, 4, 6))]
    for lvl in (2, 3):
        b = dict(base)

        def f(q):
            L2 = {**lo, 'Med': q * abs(lo['Med'])}
            if 20 + 10000 * epx(b['E_s'], b['As'], b['z'], L2) > 60:
                return f.last
            f.last = quiet(mc.v_rdc, lvl, **{**b, 'loads': L2}, gamma_c=a['gamma_c'])
            return f.last
        f.last = 0.0
        if lvl == 2:
            f.last = None
            vals = [quiet(mc.v_rdc, lvl, **{**b, 'loads': {**lo, 'Med': q * abs(lo['Med'])}}) for q in up]
            ctx.check('monotone', all(y <= x * (1 + 1e-9) for x, y in zip(vals, vals[1:])), 'monotone:v_rdc(Med)',
                      'shear resistance grows with the moment', values=vals)
    g = [quiet(mc.v_rd_max, 1, theta=a['theta'], **{**sec, 'fck': float(x)}) for x in np.sort(r.uniform(12, 120, 6))]
    ctx.check('monotone', all(y >= x * (1 - 1e-9) for x, y in zip(g, g[1:])), 'monotone:v_rd_max(fck)',
              'strut resistance falls with the strength', values=g)


@M.family(quick=3000, thorough=6000)
def ec2(ctx):
    """EC2 relations between the functions."""
    r = ctx.rng
    fck, d, bw = float(r.uniform(12, 90)), float(np.exp(r.uniform(4, 8))), float(np.exp(r.uniform(4, 7.5)))
    Ac, fcd = bw * d * 1.1, fck / 1.5
    th, al = float(r.uniform(21.81, 45)), float(r.uniform(45, 90))
    fyk, gs = float(r.uniform(200, 600)), float(r.uniform(1, 1.3))
    s, z = float(r.uniform(50, 400)), 0.9 * d
    asw = float(r.uniform(20, 1500))
    N = float(r.uniform(-0.3, 0.9)) * Ac * fcd
    V = ctx.call('VRds', e4.VRds, asw, s, z, th, fyk, al, gs)
    ctx.close('factor', V * gs, e4.VRds(asw, s, z, th, fyk, al, 1.0), rtol=1e-9, key='gamma_s:VRds')
    # the stirrups required for VRds are those that give VRds
    need = ctx.call('Asw_s_required', e4.Asw_s_required, V, z, th, fyk / gs, al)
    ctx.close('dispatch', need, asw / s, rtol=1e-9, key='Asw_s_required')
    # vertical stirrups: maximum useful area gives the strut limit at 45 deg
    amax = ctx.call('Asw_max', e4.Asw_max, fcd, fck, bw, s, fyk / gs, N, Ac)
    ctx.close('dispatch', e4.VRds(amax, s, z, 45.0, fyk, 90.0, gs), e4.VRdmax(bw, z, fck, 45.0, N, Ac, fcd), rtol=1e-7, key='Asw_max')
    c = [e4.VRdc(fck, d, float(q) * bw * d, bw, N, Ac, fcd) for q in np.sort(r.uniform(0, 0.04, 8))]
    ctx.check('monotone', all(y >= x for x, y in zip(c, c[1:])), 'monotone:VRdc(Asl)', 'less shear with more steel', values=c)
    flat = [e4.VRdc(fck, d, q * bw * d, bw, N, Ac, fcd) for q in (0.02, 0.03, 0.5)]
    ctx.check('limit', max(flat) - min(flat) <= 1e-9 * max(flat), 'cap:rho_L', 'reinforcement ratio is not limited to 2 %', values=flat)
    n = [e4.VRdc(fck, d, 500.0, bw, float(q) * Ac * fcd, Ac, fcd) for q in np.sort(r.uniform(-1, 1, 8))]
    ctx.check('monotone', all(y >= x - 1e-9 * abs(x) for x, y in zip(n, n[1:])), 'monotone:VRdc(NEd)', 'less shear with more compression', values=n)
    flat = [e4.VRdc(fck, d, 500.0, bw, q * Ac * fcd, Ac, fcd) for q in (0.2, 0.5, 0.9)]
    ctx.check('limit', max(flat) - min(flat) <= 1e-9 * max(flat), 'cap:sigma_cp', 'axial stress is not limited to 0.2 fcd', values=flat)
    ctx.check('limit', min(c + n) >= 0, 'negative:VRdc', 'negative resistance', values=c + n)
    if N > -0.05 * Ac * fcd:
        floor = (e4.VRdc(fck, d, 0.0, bw, 0.0, Ac, fcd))
        ctx.close('limit', floor, vmin(fck, d) * bw * d, rtol=1e-9, key='vmin')
    ctx.rejects('reject', 'VRdmax overstressed', e4.VRdmax, bw, z, fck, th, Ac * fcd * float(r.uniform(1.0001, 2)), Ac, fcd)
    ctx.sig(float(f'{V:.3g}'), float(f'{c[-1]:.3g}'))


@M.family(quick=3000, thorough=6000)
def punching(ctx):
    """The whole punching check: levels, factors and caps."""
    r = ctx.rng
    lx, ly = float(np.exp(r.uniform(7, 9.5))), float(np.exp(r.uniform(7, 9.5)))
    d, dg = float(r.uniform(100, 800)), float(r.uniform(0, 40))
    fck, fyd, Es = float(r.uniform(12, 90)), float(r.uniform(200, 500)), 2e5
    V, mrd = float(np.exp(r.uniform(10, 14))), float(r.uniform(2e4, 3e5))
    gc = float(r.uniform(1, 1.6))
    p1 = mc.psi_punching_level_one(lx, ly, fyd, d, Es)
    rs = mc.r_s(lx, ly, bool(r.integers(2)))
    med = mc.m_ed(V, float(r.uniform(-200, 200)), mc.b_s(lx, ly), True, False, False, False)
    p2 = mc.psi_punching_level_two(rs, fyd, d, Es, med, mrd)
    p3 = mc.psi_punching_level_three(p2, True, bool(r.integers(2)))
    b0 = float(np.exp(r.uniform(6, 9)))
    sw = float(r.uniform(50, 4000))
    for lvl in (1, 2, 3):
        psi = ctx.call('psi', mc.psi_punching, p1, p2, p3, lvl)
        ctx.check('dispatch', psi == (p1, p2, p3)[lvl - 1], 'psi_punching', 'not the rotation of the level', level=lvl)
        k = mc.k_psi(mc.k_dg(dg), d, psi)
        ctx.check('limit', 0 < k <= 0.6, 'cap:k_psi', 'k_psi above 0.6', k=k)
        c = mc.v_rdc_punching(k, b0, d, fck, gc)
        ctx.close('factor', c * gc, mc.v_rdc_punching(k, b0, d, fck, 1.0), rtol=1e-9, key='gamma_c:v_rdc_punching')
        sg = mc.sigma_swd(Es, psi, 90.0, 3.0, d, fyd, 10.0)
        ctx.check('limit', sg <= fyd, 'cap:sigma_swd', 'stirrup stress above yield', sigma=sg)
        s = quiet(mc.v_rds_punching, fyd, 0.0, 1000.0, 90.0, sg, sw, V)
        top = []
        for head, stir in ((False, False), (False, True), (True, False), (True, True)):
            m = mc.v_rd_max_punching(d, fck, head, stir, b0, k, gc)
            top.append(m)
            ctx.close('factor', m * gc, mc.v_rd_max_punching(d, fck, head, stir, b0, k, 1.0), rtol=1e-9, key='gamma_c:v_rd_max_punching')
            ctx.check('limit', m <= b0 * d * math.sqrt(fck) / gc * (1 + 1e-12), 'cap:v_rd_max_punching', 'above the upper limit', m=m)
            t = mc.v_rd_punching(c, s, m)
            ctx.check('limit', t <= m and t <= c + s, 'cap:v_rd_punching', 'total above its limits', t=t, m=m, c=c, s=s)
        ctx.check('monotone', top[0] <= top[1] <= top[2] == top[3], 'system', 'order of the reinforcement systems', values=top)
        ctx.sig(lvl, float(f'{c:.3g}'), float(f'{t:.3g}'))
    x = [mc.k_psi(1.0, d, float(q)) for q in np.sort(np.exp(r.uniform(-9, -2, 8)))]
    ctx.check('monotone', all(b <= a for a, b in zip(x, x[1:])), 'monotone:k_psi', 'grows with the rotation', values=x)


EXTRA = []
