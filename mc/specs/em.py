import numpy as np
from scipy.integrate import solve_ivp
from scipy.optimize import brentq

import rockphypy

from ..core import ND, C, N, NS, O, Spec, no
from .elastic import iso, rotate, to_tensor, to_voigt, vti

K = [37.0, 21.0, 76.8, 12.0]
G = [44.0, 7.0, 32.0, 9.0]
PHI = [0.2, 0.05, 0.35, 0.01, 0.0, 0.4]


# ---- bounds (C04) --------------------------------------------------------------------------------
def r_vrh(v, m):
    v, m = np.asarray(v, float).T, np.asarray(m, float)      # (samples, phases) or (phases,)
    a, h = sum(x * y for x, y in zip(v, m)), 1 / sum(x / y for x, y in zip(v, m))       # a phase without stiffness: Reuss 0
    return a, h, (a + h) / 2


_F = [np.array(x) for x in ([1.0], [0.3, 0.7], [0.0, 1.0], [1.0, 0.0], [0.5, 0.5], [0.2, 0.3, 0.5], [0.6, 0.1, 0.3], [1 / 3, 1 / 3, 1 / 3], [0.1, 0.2, 0.3, 0.4], [0.05, 0.9, 0.02, 0.02, 0.01])] + \
     [[0.3, 0.7], (0.2, 0.3, 0.5), [1, 0]] + \
     [np.array(x) for x in ([[0.3, 0.7]], [[0.2, 0.8], [0.7, 0.3]], [[0.2, 0.8], [0.8, 0.2], [1.0, 0.0]], [[0.2, 0.3, 0.5], [0.5, 0.2, 0.3], [0.3, 0.5, 0.2]], [[0.1, 0.3, 0.6], [0.0, 1.0, 0.0]],
                            [[0.2, 0.2, 0.3, 0.3], [0.1, 0.2, 0.3, 0.4], [0.3, 0.3, 0.2, 0.2], [0.4, 0.3, 0.2, 0.1]])]
_M = [np.array(x) for x in ([37.0], [37.0, 2.25], [2.25, 37.0], [37.0, 37.0], [37.0, 21.0, 2.25], [2.65, 2.58, 1.0], [76.8, 37.0, 0.02], [44.0, 7.0, 32.0, 9.0], [37.0, 21.0, 76.8, 2.25, 0.1])] + \
     [[37.0, 21.0], (36.6, 21.0, 2.2), [37, 21], np.array([37, 2]), np.array([37, 21, 2])]


def _same(*c):
    return np.array([len({len(x) for x in r}) == 1 for r in zip(*c)])


Spec("EM.VRH", "C04", [O("volumes", _F, elem=(0.0, 5.0, [0.0, 1e-6, 0.01, 0.5, 1.0])), O("M", _M, elem=(0.0, 500.0, [0.0, 1e-4, 0.02, 1.0, 37.0, 500.0]))], r_vrh, where=lambda v, m: np.array([np.shape(a)[-1] == np.shape(b)[-1] and not np.any((np.asarray(a) == 0) & (np.asarray(b) == 0)) for a, b in zip(v, m)]), elementwise=False, bases=[(_F[1], _M[1])])
Spec("EM.cripor", "C04", [N("K0", K, 0, 300), N("G0", G + [0.0], 0, 300), N("phi", PHI + [0.8], 0, 1), N("phic", [0.4, 0.36, 0.5, 1.0], 0.01, 1)], lambda k, g, p, c: (k - k * p / c, g - g * p / c), atol=1e-12)


def r_crr(m0, mf, pc, den=False):
    return (1 - pc) * m0 + pc * mf if den else m0 * mf / ((1 - pc) * mf + pc * m0)


_CR = [NS("M0", [37.0, 21.0, 2.65], 0.1, 300), NS("Mf", [2.25, 0.02, 1.0, 37.0], 1e-5, 300), NS("phic", [0.4, 0.36, 0.0, 1.0, 0.5], 0, 1)]
Spec("EM.cripor_reuss", "C04", _CR + [C("den", [False, True])], r_crr, scalar_shape=(1,))
Spec("EM.cripor_reuss#default", "C04", _CR, r_crr, scalar_shape=(1,))


def r_hs(f, k1, k2, g1, g2, bound="upper"):
    k, g = (k1, g1) if bound == "upper" else (k2, g2)
    zk, zg = 4 * g / 3, g / 6 * (9 * k + 8 * g) / (k + 2 * g)

    def h(a, b, z):
        # the stiff-phase form  b + f/(1/(a-b) + (1-f)/(b+z)) rewritten as a weighted harmonic mean
        return 1 / (f / (a + z) + (1 - f) / (b + z)) - z
    return h(k1, k2, zk), h(g1, g2, zg)


_HSP = [N("f", [0.3, 0.0, 1.0, 0.5, 0.8], 0, 1), N("K1", [37.0, 76.8, 21.0], 0.1, 300), N("K2", [2.25, 21.0, 37.0, 0.02], 1e-4, 300), N("G1", [44.0, 32.0, 7.0], 0.05, 300), N("G2", [7.0, 0.0, 44.0, 0.5], 0, 300)]
Spec("EM.HS", "C04", _HSP + [C("bound", ["upper", "lower"])], r_hs, where=lambda f, k1, k2, g1, g2, b: (g2 > 1e-6) | (f < 1), atol=1e-11, rtol=1e-8,
     bases=[(0.3, 37.0, 2.25, 44.0, 7.0, "upper"), (0.5, 76.8, 21.0, 32.0, 7.0, "lower"), (0.8, 37.0, 37.0, 44.0, 44.0, "upper")])
Spec("EM.HS#default", "C04", _HSP, r_hs, where=lambda f, k1, k2, g1, g2: (g2 > 1e-6) | (f < 1), atol=1e-11, rtol=1e-8, bases=[(0.3, 37.0, 2.25, 44.0, 7.0)])


# ---- Eshelby tensor of a spheroid (symmetry axis 3), Voigt strain form ---------------------------
def theta_ok(al):
    if al < 1:
        return al / (1 - al * al) ** 1.5 * (np.arccos(al) - al * np.sqrt(1 - al * al))
    return al / (al * al - 1) ** 1.5 * (al * np.sqrt(al * al - 1) - np.arccosh(al))


def theta_known(al):
    """KF-pq-prolate: 1/cosh(alpha) in place of arccosh(alpha)"""
    if al < 1:
        return theta_ok(al)
    return al / (al * al - 1) ** 1.5 * (al * np.sqrt(al * al - 1) - 1 / np.cosh(al))


def eshelby(nu, al, theta=theta_ok):
    R = (1 - 2 * nu) / (8 * np.pi * (1 - nu))
    Q = 3 / (8 * np.pi * (1 - nu))
    if al == 1:
        Ia = Ic = 4 * np.pi / 3
        Iac = 4 * np.pi / 15
    else:
        Ia = 2 * np.pi * theta(al)
        Ic = 4 * np.pi - 2 * Ia
        Iac = (Ic - Ia) / (3 * (1 - al * al))
    Iaa = np.pi - 3 * Iac / 4
    Iab = Iaa / 3
    S = np.zeros((6, 6))
    S[0, 0] = S[1, 1] = Q * Iaa + R * Ia
    S[2, 2] = Q * (4 * np.pi / 3 - 2 * Iac * al ** 2) + R * Ic
    S[0, 1] = S[1, 0] = Q * Iab - R * Ia
    S[0, 2] = S[1, 2] = Q * Iac * al ** 2 - R * Ia
    S[2, 0] = S[2, 1] = Q * Iac - R * Ic
    S[3, 3] = S[4, 4] = Q * (1 + al ** 2) * Iac + R * (Ia + Ic)
    S[5, 5] = 2 * (Q * Iab + R * Ia)
    return S


def wu(km, gm, ki, gi, al, theta=theta_ok):
    """Wu's strain concentration tensor T = [I + S C0^-1 (Ci - C0)]^-1 (Voigt, engineering shear)"""
    nu = (3 * km - 2 * gm) / (6 * km + 2 * gm)
    C0 = iso(km, gm)
    return np.linalg.inv(np.eye(6) + eshelby(nu, al, theta) @ np.linalg.inv(C0) @ (iso(ki, gi) - C0))


def pq(km, gm, ki, gi, al, theta=theta_ok):
    T = wu(km, gm, ki, gi, al, theta)
    iijj = T[:3, :3].sum()
    ijij = np.trace(T)                     # T_ijij: normal parts plus engineering shear parts counted once per pair
    return iijj / 3, (ijij - iijj / 3) / 5


def r_pq(km, gm, ki, gi, al):
    return pq(km, gm, ki, gi, al)


def d_pq(km, gm, ki, gi, al):
    return pq(km, gm, ki, gi, al, theta_known)


KP = "KF-pq-prolate"
_AL = [0.1, 1.0, 0.01, 0.5, 0.9, 0.001, 1, 2.0, 5.0, 1.3, 0.3]
_alok = lambda a: (np.abs(a - 1) > 5e-3) | (a == 1)
Spec("EM.PQ", "C05", [NS("Km", K, 1, 200), NS("Gm", G, 0.5, 150), NS("Ki", [2.25, 0.0, 37.0, 0.05], 0, 200), NS("Gi", [0.0, 7.0, 44.0], 0, 150), NS("alpha", _AL, 1e-4, 30)], r_pq, where=lambda a, b, c, d, e: _alok(e),
     elementwise=False, known=[(KP, d_pq)], rtol=1e-7, atol=1e-9, bases=[(37.0, 44.0, 2.25, 0.0, 0.1), (21.0, 7.0, 37.0, 44.0, 0.5), (12.0, 9.0, 0.0, 0.0, 1.0), (37.0, 44.0, 2.25, 0.0, 2.0)], max_scalar=9000)


def r_pqv(km, gm, ki, gi, al):
    o = np.array([pq(km, gm, a, b, c) for a, b, c in zip(ki, gi, al)])
    return o[:, 0], o[:, 1]


def d_pqv(km, gm, ki, gi, al):
    o = np.array([pq(km, gm, a, b, c, theta_known) for a, b, c in zip(ki, gi, al)])
    return o[:, 0], o[:, 1]


_KI = [np.array(x) for x in ([2.25], [37.0, 2.25], [0.0, 21.0], [37.0, 21.0, 2.25], [2.25, 0.0, 37.0], [37.0, 2.25, 21.0, 0.05, 76.8])]
_GI = [np.array(x) for x in ([0.0], [44.0, 0.0], [0.0, 7.0], [44.0, 7.0, 0.0], [0.0, 0.0, 44.0], [44.0, 0.0, 7.0, 0.0, 32.0])]
_AI = [np.array(x) for x in ([0.1], [1.0], [2.0], [1.0, 0.1], [0.1, 1.0], [1.0, 1.0], [0.5, 0.01], [1.0, 0.1, 1.0], [1.0, 1.0, 1.0], [0.01, 1.0, 0.3], [0.9, 0.5, 0.1], [1.0, 0.1, 0.05, 1.0, 0.5], [2.0, 1.0, 0.1], [1.0, 2.0])]
Spec("EM.PQ_vectorize", "C05", [NS("Km", K, 5, 100), NS("Gm", G, 3, 60), O("Ki", _KI, elem=(0.0, 100.0, [0.0, 0.02, 100.0])), O("Gi", _GI, elem=(0.0, 60.0, [0.0, 0.5, 60.0])), O("alpha", _AI, elem=(1e-3, 0.99, [1e-3, 0.2, 0.99]))], r_pqv, where=lambda a, b, c, d, e: _same(c, d, e), elementwise=False, known=[(KP, d_pqv)],
     t_quick=3, t_thorough=4, rtol=1e-7, atol=1e-9, bases=[(37.0, 44.0, _KI[3], _GI[3], _AI[7]), (21.0, 7.0, _KI[1], _GI[1], _AI[4]), (12.0, 9.0, _KI[5], _GI[5], _AI[11]), (12.0, 9.0, _KI[0], _GI[0], _AI[0])], max_scalar=20000, sweep_n=21)


def _bsc(theta):
    def f(k, g, x, al):
        k, g, x, al = (np.asarray(v, float) for v in (k, g, x, al))
        ks, gs = (x * k).sum(), (x * g).sum()
        for _ in range(3000):
            p = np.array([pq(ks, gs, a, b, c, theta) for a, b, c in zip(k, g, al)])
            kn, gn = (x * k * p[:, 0]).sum() / (x * p[:, 0]).sum(), (x * g * p[:, 1]).sum() / (x * p[:, 1]).sum()
            if not (np.isfinite(kn) and np.isfinite(gn)):
                return np.nan, np.nan
            d = abs(kn - ks) / max(abs(ks), 1e-9) + abs(gn - gs) / max(abs(gs), 1e-9)
            ks, gs = kn, gn
            if d < 1e-13:
                break
        else:
            return np.nan, np.nan
        # only roots well away from total loss of stiffness
        return (ks, gs) if gs > 1.0 else (np.nan, np.nan)
    memo = {}

    def m(*a):
        key = tuple(np.asarray(v, float).tobytes() for v in a)
        if key not in memo:
            memo[key] = f(*a)
        return memo[key]
    return m


_BK = [np.array([37.0, 2.25]), np.array([37.0, 21.0]), np.array([37.0, 21.0, 2.25]), [37.0, 2.25], (76.8, 37.0), np.array([37, 21])]
_BG = [np.array([44.0, 0.0]), np.array([44.0, 7.0]), np.array([44.0, 7.0, 0.0]), [44.0, 0.0], (32.0, 44.0), np.array([44, 7])]
_BX = [np.array([0.8, 0.2]), np.array([0.95, 0.05]), np.array([0.5, 0.5]), np.array([1.0, 0.0]), np.array([0.6, 0.3, 0.1]), [0.9, 0.1], np.array([0.7, 0.2, 0.1]), np.array([0.3, 0.7]), np.array([0.999, 0.001]), np.array([0.0005, 0.9995])]
_BA = [np.array([1.0, 1.0]), np.array([1.0, 0.1]), np.array([0.5, 0.3]), np.array([1.0, 1.0, 1.0]), np.array([1.0, 0.5, 0.1]), [1.0, 0.5], np.array([0.1, 1.0]), np.array([1, 1]), np.array([1.0, 2.0])]
Spec("EM.Berryman_sc", "C05", [O("K", _BK), O("G", _BG), O("X", _BX), O("Alpha", _BA[:8])], _bsc(theta_ok), where=_same, elementwise=False, known=[(KP, _bsc(theta_known))], rtol=2e-5, atol=1e-6, slow=True, t_quick=3, t_thorough=4,
     bases=[(_BK[0], _BG[0], _BX[0], _BA[1]), (_BK[2], _BG[2], _BX[4], _BA[4])])


def _bf(theta):
    def f(params, k, g, x, al):
        ks, gs = params
        p = np.array([pq(ks, gs, a, b, c, theta) for a, b, c in zip(k, g, al)])
        return (x * (np.asarray(k) - ks) * p[:, 0]).sum(), (x * (np.asarray(g) - gs) * p[:, 1]).sum()
    return f


Spec("EM.Berryman_func", "C05", [O("params", [(30.0, 35.0), [20.0, 15.0], np.array([10.0, 12.0])]), O("K", [_BK[0], _BK[1], _BK[2]]), O("G", _BG[:3]), O("X", [_BX[0], _BX[2], _BX[4]]), O("Alpha", [_BA[0], _BA[1], _BA[2], _BA[3], _BA[4], _BA[8]])],
     _bf(theta_ok), where=lambda p, *c: _same(*c), elementwise=False, known=[(KP, _bf(theta_known))], rtol=1e-7, atol=1e-8, t_quick=3,
     bases=[((30.0, 35.0), _BK[0], _BG[0], _BX[0], _BA[1]), ((30.0, 35.0), _BK[2], _BG[2], _BX[4], _BA[4])])


def r_swiss(k, g, p):
    # compliances of non-interacting spherical pores
    return 4 * k * g / (4 * g + (4 * g + 3 * k) * p), g * (9 * k + 8 * g) / (9 * k + 8 * g + (15 * k + 20 * g) * p)


Spec("EM.Swiss_cheese", "C05", [NS("Ks", K, 0.5, 300), NS("Gs", G, 0.2, 300), N("phi", PHI + [0.7], 0, 1)], r_swiss)
_SK = [np.array(x) for x in ([37.0], [37.0, 21.0], [21.0, 76.8, 37.0], [37.0, 21.0, 76.8, 12.0, 45.0])]
_SG = [np.array(x) for x in ([44.0], [44.0, 7.0], [7.0, 32.0, 44.0], [44.0, 7.0, 32.0, 9.0, 20.0])]
_SP = [np.array([0.1]), np.array([0.0, 0.1, 0.3]), np.array([0.3, 0.05, 0.2, 0.1]), 0.2, np.linspace(0.01, 0.4, 9), np.array([0.2, 0.1])]
Spec("EM.Swiss_cheese#grid", "C05", [O("Ks", _SK, elem=(0.5, 300.0, [0.5, 5.0, 300.0])), O("Gs", _SG, elem=(0.2, 300.0, [0.2, 3.0, 300.0])), O("phi", _SP)], lambda k, g, p: r_swiss(np.asarray(k)[:, None], np.asarray(g)[:, None], p), where=lambda a, b, c: _same(a, b), elementwise=False, t_quick=3,
     bases=[(_SK[2], _SG[2], _SP[1])])


def r_sc(phi, ks, gs, n):
    k, g = ks, gs
    for _ in range(n):
        k = 1 / (1 / ks + phi / k + 0.75 * phi / g)
        g = 1 / (1 / gs + phi / g * 5 * (3 * k + 4 * g) / (9 * k + 8 * g))
    return k, g


Spec("EM.SC", "C05", [N("phi", PHI, 0, 0.48), N("Ks", K, 0.5, 300), N("Gs", G, 0.2, 300), C("iter_n", [100, 1, 2, 10, 400])], r_sc, bases=[(0.2, 37.0, 44.0, 100), (0.05, 21.0, 7.0, 1), (0.35, 76.8, 32.0, 10)])


def r_dc(k, g, cd):
    nu = 0.5 - 1.5 * g / (3 * k + g)
    return k / (1 + 16 * cd * (1 - nu * nu) / (9 * (1 - 2 * nu))), g / (1 + 32 * cd * (1 - nu) * (5 - nu) / (45 * (2 - nu)))


Spec("EM.Dilute_crack", "C05", [N("Ks", K, 0.5, 300), N("Gs", G, 0.2, 300), N("cd", [0.1, 0.0, 0.01, 0.3, 0.05], 0, 5)], r_dc)


def r_ob(k, g, cd):
    nu = (0.5 - 1.5 * g / (3 * k + g)) * (9 - 16 * cd) / 9
    return k - 16 * k * cd * (1 - nu * nu) / (9 * (1 - 2 * nu)), g - 32 * g * cd * (1 - nu) * (5 - nu) / (45 * (2 - nu))


Spec("EM.OConnell_Budiansky", "C05", [N("K0", K, 1, 300), N("G0", G, 0.5, 200), N("crd", [0.1, 0.0, 0.01, 0.3, 0.05], 0, 0.56)], r_ob, where=lambda k, g, c: 3 * k > 0.2 * g, atol=1e-10)
KO = "KF-oc-fluid"


def _oc(defect):
    def f(params, crd, nu0, w):
        nu, D = params
        e1 = 45 / 16 * (nu0 - nu) * (2 - nu) / ((1 - nu * nu) * (D * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0))) - crd
        x = 9 / 16 * (1 - 2 * nu) / (1 - (nu0 if defect else nu) ** 2)
        return e1, crd * D * (D - 1) - x * (D - 1) - 3 * w / (4 * np.pi) * D
    return f


Spec("EM.OC_R_funcs", "C05", [O("params", [(0.2, 0.9), [0.1, 0.5], np.array([0.05, 1.0])]), NS("crd", [0.1, 0.0, 0.3], 0, 1), NS("nu_0", [0.25, 0.1, 0.074, 0.3], 0.0, 0.49), NS("w", [0.5, 0.0, 1.0, 3.0], 0, 50)], _oc(False),
     elementwise=False, known=[(KO, _oc(True))], rtol=1e-9, atol=1e-10, bases=[((0.2, 0.9), 0.1, 0.25, 0.5)], where=lambda p, c, n, w: np.array([abs(x[1] * (1 + 3 * y) * (2 - x[0]) - 2 * (1 - 2 * y)) > 0.05 for x, y in zip(p, n)]))


def _ofl(defect):
    oc = _oc(defect)

    def f(k0, g0, kf, crd, al):
        nu0 = (3 * k0 - 2 * g0) / (6 * k0 + 2 * g0)
        w = kf / al / k0

        def Dof(nu):
            x = 9 / 16 * (1 - 2 * nu) / (1 - (nu0 if defect else nu) ** 2)
            b = crd + x + 3 * w / (4 * np.pi)
            return 2 * x / (b + np.sqrt(b * b - 4 * crd * x))        # root in (0, 1]

        def h(nu):
            D = Dof(nu)
            return 45 / 16 * (nu0 - nu) * (2 - nu) - crd * (1 - nu * nu) * (D * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0))
        grid = np.linspace(-0.3, nu0 + 0.2, 101)
        hv = [h(t) for t in grid]
        roots = [brentq(h, a, b, xtol=1e-15, rtol=1e-14) for a, b, u, v in zip(grid[:-1], grid[1:], hv[:-1], hv[1:]) if u * v < 0 or u == 0]
        if len(roots) != 1:
            return np.nan, np.nan
        nu = roots[0]
        D = Dof(nu)
        return k0 * (1 - 16 * (1 - nu * nu) * crd * D / (9 * (1 - 2 * nu))), g0 * (1 - 32 / 45 * (1 - nu) * (D + 3 / (2 - nu)) * crd)
    return f


Spec("EM.OConnell_Budiansky_fl", "C05", [NS("K0", K, 10, 100), NS("G0", G, 5, 60), NS("Kfl", [2.1, 0.5, 1.0, 0.1], 0.02, 4), NS("crd", [0.1, 0.05, 0.2, 0.15, 0.01, 0.3], 0.001, 0.3), NS("alpha", [0.1, 0.05, 0.5, 0.2, 0.01, 0.001], 1e-4, 1)], _ofl(False), elementwise=False,
     where=lambda k, g, kf, c, a: (3 * k > 2.2 * g) & (kf / a / k < 500), known=[(KO, _ofl(True))], rtol=1e-5, atol=1e-6, slow=True, max_scalar=2500)


# ---- DEM -----------------------------------------------------------------------------------------
def _dem(theta):
    def f(y, t, params):
        gi, ki, al = params
        p, q = pq(y[0], y[1], ki, gi, al, theta)
        return (ki - y[0]) * p / (1 - t), (gi - y[1]) * q / (1 - t)
    return f


Spec("EM.DEM", "C05", [O("y", [[37.0, 44.0], [21.0, 7.0], (12.0, 9.0)]), NS("t", [0.1, 0.0, 0.5, 0.3], 0, 0.9), O("params", [[0.0, 2.25, 0.1], [0.0, 0.0, 1.0], [7.0, 21.0, 0.5], (0.0, 0.05, 2.0)])], _dem(theta_ok), elementwise=False,
     known=[(KP, _dem(theta_known))], rtol=1e-7, atol=1e-9, t_quick=3, bases=[([37.0, 44.0], 0.1, [0.0, 2.25, 0.1])])


def _bdem(theta):
    memo = {}

    def f(km, gm, ki, gi, al, phi):
        key = (km, gm, ki, gi, al, phi)
        if key not in memo:
            n = int(np.floor(phi / 0.01 + 1e-9))
            t = np.arange(n + 1) * 0.01
            rhs = _dem(theta)
            if n == 0:
                memo[key] = (np.array([km * 1.0]), np.array([gm * 1.0]), t, 1.0)
            else:
                s = solve_ivp(lambda x, y: rhs(y, x, (gi, ki, al)), (0, t[-1]), [km, gm], t_eval=t, method="DOP853", rtol=1e-10, atol=1e-12)
                memo[key] = (s.y[0], s.y[1], t, 1.0)
        return memo[key]
    return f


def bdem_call(*a):
    """Berryman_DEM observed on the documented increments t <= phi (the solver may add one trailing increment)"""
    k, g, t = rockphypy.EM.Berryman_DEM(*a)
    k, g, t = np.asarray(k), np.asarray(g), np.asarray(t)
    phi = a[-1]
    ok = t.ndim == 1 and k.shape == t.shape == g.shape and phi - 1e-9 <= t[-1] <= phi + 0.01 + 1e-9
    m = t <= phi + 1e-9
    n = int(np.floor(phi / 0.01 + 1e-9))
    m[n + 1:] = False
    return k[m], g[m], t[m], float(ok)


Spec("EM.Berryman_DEM", "C05", [NS("Km", [37.0, 21.0, 76.8], 5, 100), NS("Gm", [44.0, 7.0, 32.0], 3, 60), NS("Ki", [2.25, 0.0, 10.0], 0, 40), NS("Gi", [0.0, 3.0], 0, 40), NS("alpha", [0.1, 1.0, 0.5, 1, 0.8, 0.05], 0.02, 1), NS("phi", [0.2, 0.05, 0.4, 0.01, 0.155], 0.0, 0.5)],
     _bdem(theta_ok), where=lambda a, b, c, d, e, f: _alok(e) & (f < np.where(e < 0.3, 2 * e + 0.02, 0.6)), elementwise=False, rtol=1e-5, atol=1e-5, call=bdem_call, slow=True, max_scalar=900, lit_ok=False,
     bases=[(37.0, 44.0, 2.25, 0.0, 0.1, 0.2), (21.0, 7.0, 0.0, 0.0, 1.0, 0.4)], sweep_n=7)


# ---- Nemat-Nasser/Hori ----------------------------------------------------------------------------
def _s12(k, g):
    return 3 * k / (3 * k + 4 * g), 6 * (k + 2 * g) / (5 * (3 * k + 4 * g))


def r_scd(km, gm, ki, gi, f, mode):
    s1, s2 = _s12(km, gm)
    a, b = f * (km - ki) / (km - s1 * (km - ki)), f * (gm - gi) / (gm - s2 * (gm - gi))
    return (1 / (1 + a), 1 / (1 + b)) if mode == "stress" else (1 - a, 1 - b)


def r_scd_shape(km, gm, ki, gi, f, mode):
    return r_scd(km, gm, ki, gi, f, mode)


Spec("EM.SC_dilute", "C05", [N("Km", K, 1, 200), N("Gm", G, 0.5, 150), N("Ki", [2.25, 0.05, 10.0, 0.0, 60.0], 0, 200), N("Gi", [1.0, 0.0, 5.0, 60.0], 0, 150), N("f", [0.1, 0.0, 0.3, 0.05], 0, 1), C("mode", ["stress", "strain"])], r_scd,
     where=lambda km, gm, ki, gi, f, m: (np.abs(km - ki) > 0.05) & (np.abs(gm - gi) > 0.05), atol=1e-12, bases=[(37.0, 44.0, 2.25, 1.0, 0.1, "stress"), (21.0, 7.0, 10.0, 5.0, 0.3, "strain")])


def _flex(start):
    def f(fr, n, km, ki, gm, gi):
        k, g = km * 1.0, (km if start == "Km" else gm) * 1.0
        good = True
        for _ in range(n):
            s1, s2 = _s12(k, g)
            k, g = km - fr * k * (km - ki) / (k - s1 * (k - ki)), gm - fr * g * (gm - gi) / (g - s2 * (g - gi))
            good = good & (k > 0.1 * km) & (g > 0.1 * gm)          # the iteration itself is only defined while it stays positive
        return np.where(good, k, np.nan)[()], np.where(good, g, np.nan)[()]
    return f


Spec("EM.SC_flex", "C05", [N("f", [0.1, 0.3, 0.05, 0.0], 0, 0.35), C("iter_n", [100, 1, 3, 20, 400]), N("Km", K, 5, 100), N("Ki", [2.25, 0.05, 1.0], 0.01, 4.9), N("Gm", G, 3, 60), N("Gi", [1.0, 0.0, 0.5], 0.0, 2.9)], _flex("Km"), known=[("ok", _flex("Gm"))], rtol=1e-7,
     where=lambda f, n, km, ki, gm, gi: (km > 2 * ki) & (gm > 2 * gi) & (gm < 3 * km), bases=[(0.1, 100, 37.0, 2.25, 44.0, 1.0), (0.3, 20, 21.0, 1.0, 32.0, 0.5)])


def r_mt(f, km, gm, k1, g1, k2, g2):
    s1, s2 = _s12(km, gm)

    def mix(m, a, b, s):
        wa, wb = f / (m * (1 - s) + a * s), (1 - f) / (m * (1 - s) + b * s)
        return (wa * a + wb * b) / (wa + wb)
    return mix(km, k1, k2, s1), mix(gm, g1, g2, s2)


Spec("EM.MT_average", "C05", [N("f", [0.3, 0.0, 1.0, 0.7, 0.5], 0, 1), N("Kmat", K, 1, 200), N("Gmat", G, 0.5, 150), N("K1", [37.0, 21.0, 5.0], 0.05, 200), N("G1", [44.0, 7.0, 2.0], 0.01, 150), N("K2", [2.25, 10.0, 37.0], 0.0, 200), N("G2", [1.0, 5.0, 44.0], 0.0, 150)],
     r_mt, where=lambda f, km, gm, k1, g1, k2, g2: 3 * km > 0.2 * gm, atol=1e-10, bases=[(0.3, 37.0, 44.0, 37.0, 44.0, 2.25, 1.0), (0.7, 21.0, 7.0, 21.0, 7.0, 10.0, 5.0)])


# ---- cracked media (C06) ---------------------------------------------------------------------------
def hud_U(k, g, ki, gi, al):
    la = k - 2 * g / 3
    kap = (ki + 4 * gi / 3) * (la + 2 * g) / (np.pi * al * g * (la + g))
    m = 4 * gi * (la + g) / (np.pi * al * g * (3 * la + 4 * g))
    return la, 16 * (la + 2 * g) / (3 * (3 * la + 4 * g) * (1 + m)), 4 * (la + 2 * g) / (3 * (la + g) * (1 + kap))


def hud1(k, g, ki, gi, al, crd):
    """first-order correction for crack normals along axis 3"""
    la, u1, u3 = hud_U(k, g, ki, gi, al)
    b = np.array([la, la, la + 2 * g, 0, 0, 0])            # stress on the crack faces per unit strain
    c = -crd * u3 / g * np.outer(b, b)
    c[3, 3] = c[4, 4] = -g * crd * u1
    return c


def hud2(k, g, ki, gi, al, crd):
    la, u1, u3 = hud_U(k, g, ki, gi, al)
    q = 15 * (la / g) ** 2 + 28 * la / g + 28
    b = np.array([la, la, la + 2 * g, 0, 0, 0])
    c = q / 15 * (crd * u3) ** 2 / (la + 2 * g) * np.outer(b, b)
    c[3, 3] = c[4, 4] = 2 / 15 * g * (3 * la + 8 * g) / (la + 2 * g) * (crd * u1) ** 2
    return c


AX = {3: np.eye(3), 1: np.array([[0.0, 0, 1], [0, 1, 0], [-1, 0, 0]]), 2: np.array([[1.0, 0, 0], [0, 0, 1], [0, -1, 0]])}


def r_hudson(k, g, ki, gi, al, crd, order=1, axis=3):
    c = iso(k, g) + hud1(k, g, ki, gi, al, crd)
    if order == 2:
        c = c + hud2(k, g, ki, gi, al, crd)
    return rotate(c, AX[axis])


_HP = [NS("K", K, 1, 300), NS("G", G, 0.5, 200), NS("Ki", [2.25, 0.0, 0.02, 10.0], 0, 100), NS("Gi", [0.0, 1.0, 5.0], 0, 60), NS("alpha", [0.01, 0.001, 0.1, 0.05], 1e-5, 1), NS("crd", [0.05, 0.0, 0.01, 0.1], 0, 0.6)]
_HB = (37.0, 44.0, 2.25, 0.0, 0.01, 0.05)
_HB2 = (21.0, 7.0, 0.02, 1.0, 0.1, 0.1)
Spec("EM.hudson", "C06", _HP + [C("order", [1, 2]), C("axis", [3, 1])], r_hudson, elementwise=False, rtol=1e-9, atol=1e-10, bases=[_HB + (1, 3), _HB2 + (2, 1)])
Spec("EM.hudson#default", "C06", _HP, r_hudson, elementwise=False, rtol=1e-9, atol=1e-10, bases=[_HB, _HB2])


def r_rand(k, g, ki, gi, al, crd):
    """isotropic average of the single-set correction"""
    T = to_tensor(hud1(k, g, ki, gi, al, crd))
    a, b = np.einsum("iijj", T), np.einsum("ijij", T)
    return k + a / 9, g + (3 * b - a) / 30


def r_rand_v(*a):
    """vectorised over points"""
    a = np.broadcast_arrays(*[np.asarray(x, float) for x in a])
    la, u1, u3 = hud_U(*a[:5])
    k, g, crd = a[0], a[1], a[5]
    # invariants of hud1:  C_iijj = -crd u3/g (3la+2g)^2 ;  C_ijij = -crd u3/g (2 la^2+(la+2g)^2) - 4 g crd u1
    ii = -crd * u3 / g * (3 * la + 2 * g) ** 2
    ij = -crd * u3 / g * (2 * la ** 2 + (la + 2 * g) ** 2) - 4 * g * crd * u1
    return k + ii / 9, g + (3 * ij - ii) / 30


def d_rand_v(*a):
    a = np.broadcast_arrays(*[np.asarray(x, float) for x in a])
    la, u1, u3 = hud_U(*a[:5])
    return r_rand_v(*a)[0], a[1] - 2 * a[1] * a[5] * (3 * u1 + 2 * u3)


_HPA = [N("K", K, 1, 300), N("G", G, 0.5, 200), N("Ki", [2.25, 0.0, 0.02, 10.0], 0, 100), N("Gi", [0.0, 1.0, 5.0], 0, 60), N("alpha", [0.01, 0.001, 0.1, 0.05], 1e-5, 1), N("crd", [0.05, 0.0, 0.01, 0.1], 0, 0.6)]
Spec("EM.hudson_rand", "C06", _HPA, r_rand_v, known=[("KF-hudson-rand", d_rand_v)], atol=1e-9, bases=[_HB, _HB2])


def r_ortho3(k, g, ki, gi, al, crd):
    c = iso(k, g)
    for n, ax in enumerate((1, 2, 3)):
        c = c + rotate(hud1(k, g, ki, gi, al[n], crd[n]), AX[ax])
    return c


_OA = [np.array([0.01, 0.02, 0.05]), np.array([0.1, 0.001, 0.01]), np.array([0.01, 0.01, 0.01]), [0.05, 0.01, 0.1], (0.01, 0.1, 0.02)]
_OD = [np.array([0.05, 0.02, 0.1]), np.array([0.05, 0.0, 0.0]), np.array([0.0, 0.05, 0.0]), np.array([0.0, 0.0, 0.05]), np.array([0.0, 0.0, 0.0]), [0.03, 0.04, 0.01], np.array([0, 0, 0])]
Spec("EM.hudson_ortho", "C06", _HP[:4] + [O("alpha", _OA, elem=(1e-4, 0.5, [1e-4, 0.3])), O("crd", _OD, elem=(0.0, 0.4, [0.0, 1e-3, 0.2]))], r_ortho3, elementwise=False, rtol=1e-9, atol=1e-10, bases=[(37.0, 44.0, 2.25, 0.0, _OA[0], _OD[0]), (21.0, 7.0, 0.02, 1.0, _OA[1], _OD[5])])


def r_cone(k, g, ki, gi, al, crd, th):
    """average of the tilted set over azimuth: 8 equispaced azimuths integrate a 4th-rank tensor exactly"""
    t = np.deg2rad(th)
    c1 = hud1(k, g, ki, gi, al, crd)
    ry = np.array([[np.cos(t), 0, np.sin(t)], [0, 1, 0], [-np.sin(t), 0, np.cos(t)]])
    acc = 0
    for m in range(8):
        p = 2 * np.pi * m / 8
        rz = np.array([[np.cos(p), -np.sin(p), 0], [np.sin(p), np.cos(p), 0], [0, 0, 1.0]])
        acc = acc + rotate(c1, rz @ ry) / 8
    return iso(k, g) + acc


def d_cone(k, g, ki, gi, al, crd, th):
    c = r_cone(k, g, ki, gi, al, crd, th)
    la, u1, u3 = hud_U(k, g, ki, gi, al)
    c[5, 5] -= crd / 2 * g * 3 * u3 * np.sin(np.deg2rad(th)) ** 4
    return c


Spec("EM.hudson_cone", "C06", _HP + [NS("theta", [30.0, 0.0, 45.0, 60.0, 90.0, 15.0, 120.0, -20.0], -90, 180)], r_cone, elementwise=False, known=[("KF-hudson-cone", d_cone)], rtol=1e-8, atol=1e-9, bases=[_HB + (30.0,), _HB2 + (60.0,)], max_scalar=6000)


def esh_corr(k, g, al, kf):
    C0 = iso(k, g)
    return (C0 - iso(kf, 0.0)) @ wu(k, g, kf, 0.0, al)


def r_esh(k, g, phi, al, kf, mat=False):
    c = iso(k, g) - phi * esh_corr(k, g, al, kf)
    c = (c + c.T) / 2
    return c if mat else np.array([c[0, 0], c[2, 2], c[0, 2], c[3, 3], c[5, 5]])


def d_esh(k, g, phi, al, kf, mat=False):
    c11, c33, c13, c44, c66 = r_esh(k, g, phi, al, kf)
    X = esh_corr(k, g, al, kf)
    S = eshelby((3 * k - 2 * g) / (6 * k + 2 * g), al)
    la = k - 2 * g / 3
    s11, s12, s13, s31, s33 = S[0, 0], S[0, 1], S[0, 2], S[2, 0], S[2, 2]
    cc = kf / (3 * (k - kf))
    D = s33 * s11 + s33 * s12 - 2 * s31 * s13 - (s11 + s12 + s33 - 1 - 3 * cc) - cc * (s11 + s12 + 2 * (s33 - s13 - s31))
    # correct term is (la*(s31-s33+1) + 2 g E/(s12-s11+1))/D; the code leaves la*(s31-s33+1) undivided
    c11 = c11 - phi * (la * (s31 - s33 + 1) * (1 - 1 / D))
    return vti(c11, c33, c13, c44, c66) if mat else np.array([c11, c33, c13, c44, c66])


_EP = [NS("K", K, 1, 300), NS("G", G, 0.5, 200), NS("phi", [0.01, 0.0, 0.005, 0.05, 0.3], 0, 0.6), NS("alpha", [0.1, 0.01, 0.5, 0.05], 2e-4, 0.99), NS("Kf", [2.25, 0.0, 0.05, 1.0], 0, 12)]
Spec("EM.Eshelby_Cheng", "C06", _EP + [C("mat", [False, True])], r_esh, elementwise=False, known=[("KF-eshelby-c11", d_esh)], rtol=1e-7, atol=1e-8, bases=[(37.0, 44.0, 0.01, 0.1, 2.25, False), (21.0, 7.0, 0.005, 0.05, 0.0, True)])
Spec("EM.Eshelby_Cheng#default", "C06", _EP, r_esh, elementwise=False, known=[("KF-eshelby-c11", d_esh)], rtol=1e-7, atol=1e-8, bases=[(37.0, 44.0, 0.01, 0.1, 2.25)])
