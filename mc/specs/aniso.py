import numpy as np

from ..core import ND, C, N, NS, O, Spec, no
from .elastic import hti, iso, rotate, vti
from .fluid import DRY
import rockphypy

K = [37.0, 21.0, 2.25, 70.8, 12.0, 0.5]
G = [44.0, 7.0, 0.1, 32.0, 9.0]
RHO = [2.65, 2.2, 1.0, 2.87, 2.4]

# ---- utils (C07) ---------------------------------------------------------------------------------
Spec("utils.V", "C07", [N("K", K, 0.0, 200), N("G", G + [0.0], 0.0, 200), N("rho", RHO, 0.1, 8)],
     lambda k, g, r: (1e3 * ((3 * k + 4 * g) / (3 * r)) ** 0.5, 1e3 * (g / r) ** 0.5), where=lambda k, g, r: (k + g > 0.01))
Spec("utils.poi", "C07", [N("K", K + [0.0], 0.0, 200), N("G", G + [0.0], 0.0, 200)], lambda k, g: 0.5 - 1.5 * g / (3 * k + g), where=lambda k, g: k + g > 0.01, atol=1e-13)
Spec("utils.lame", "C07", [N("K", K, 0.0, 200), N("G", G + [0.0], 0.0, 200)], lambda k, g: (k + 4 * g / 3) - 2 * g, atol=1e-11)
Spec("utils.M_from_V", "C07", [N("den", RHO, 0.1, 8), N("vp", [4000.0, 3000.0, 1500.0, 6000.0, 2500.0], 0, 12000), N("vs", [2500.0, 1500.0, 0.0, 3800.0, 1200.0], 0, 8000)],
     lambda d, vp, vs: (d * (vp * vp - 4 * vs * vs / 3) * 1e-6, d * vs * vs * 1e-6), rtol=1e-9, atol=1e-9)
Spec("utils.crack_por", "C07", [N("crd", [0.05, 0.0, 0.1, 0.3], 0, 1), N("alpha", [0.01, 0.001, 0.1, 1.0], 0, 2)], lambda c, a: 4 / 3 * np.pi * c * a)
_CS = [30.0, 20.0, 8.0, 10.0, 12.0, 25.0, 0.0, -2.0]
Spec("utils.write_HTI_matrix", "C07", [NS(n, _CS, -10, 100) for n in ("C11", "C33", "C13", "C44", "C55")], hti, elementwise=False, atol=1e-12,
     bases=[(30.0, 25.0, 8.0, 9.0, 7.0), (21.5, 33.25, 6.5, 12.0, 10.0)])
Spec("utils.write_VTI_matrix", "C07", [NS(n, _CS, -10, 100) for n in ("C11", "C33", "C13", "C44", "C66")], vti, elementwise=False, atol=1e-12,
     bases=[(30.0, 25.0, 8.0, 9.0, 7.0), (21.5, 33.25, 6.5, 12.0, 10.0)])


def r_vti_s(s11, s12, s13, s33, s44):
    s = np.diag([s11, s11, s33, s44, s44, 2 * s11 - 2 * s12]).astype(float)
    s[0, 1] = s[1, 0] = s12
    s[0, 2] = s[2, 0] = s[1, 2] = s[2, 1] = s13
    return s


Spec("utils.write_VTI_compliance", "C07", [NS(n, [0.05, 0.03, -0.01, 0.08, 0.12, 0.0], -1, 1) for n in ("S11", "S12", "S13", "S33", "S44")], r_vti_s, elementwise=False, atol=1e-14,
     bases=[(0.05, -0.01, -0.012, 0.07, 0.12), (0.03, -0.004, 0.001, 0.025, 0.09)])


def r_mat(c11, c22, c33, c12, c13, c23, c44, c55, c66):
    c = np.diag([c11, c22, c33, c44, c55, c66]).astype(float)
    for (i, j), v in (((0, 1), c12), ((0, 2), c13), ((1, 2), c23)):
        c[i, j] = c[j, i] = v
    return c


Spec("utils.write_matrix", "C07", [NS(n, _CS, -10, 100) for n in "C11 C22 C33 C12 C13 C23 C44 C55 C66".split()], r_mat, elementwise=False, atol=1e-12,
     bases=[(30.0, 28.0, 25.0, 8.0, 7.0, 6.0, 9.0, 10.0, 11.0), (21.5, 33.25, 40.0, 6.5, 1.0, 12.0, 10.0, 3.0, 2.0)])
Spec("utils.write_iso", "C07", [NS("K", K, 0, 200), NS("G", G + [0.0], 0, 200)], iso, elementwise=False, atol=1e-12)


def r_v2c(vp0, vp45, vp90, vs0, vsh90, den):
    c11, c33, c44, c66 = den * vp90 ** 2, den * vp0 ** 2, den * vs0 ** 2, den * vsh90 ** 2
    # Christoffel at 45 degrees: (c11+c44-2x)(c33+c44-2x) = (c13+c44)^2 with x = den*vp45^2
    x = den * vp45 ** 2
    return vti(c11, c33, np.sqrt((c11 + c44 - 2 * x) * (c33 + c44 - 2 * x)) - c44, c44, c66)


def t_v2c(vp0, vp45, vp90, vs0, vsh90, den):
    # C13 + C44 is the root of a product of differences
    c11, c33, c44 = den * vp90 ** 2, den * vp0 ** 2, den * vs0 ** 2
    x = den * vp45 ** 2
    a, b = c11 + c44 - 2 * x, c33 + c44 - 2 * x
    t = 1e-14 * x * (np.abs(a) + np.abs(b)) / np.sqrt(a * b)
    return vti(0.0 * c11, 0.0, t, 0.0, 0.0)


_e = [(vp0, np.sqrt(((1 + e) * max(vp0 ** 2, vp90 ** 2) + vs0 ** 2) / 2), vp90, vs0, vs90, d) for vp0, vp90, vs0, vs90, d in ((3.3, 3.6, 1.6, 1.9, 2.3), (4.2, 4.2, 2.1, 2.1, 2.6), (4.0, 3.5, 2.0, 1.8, 2.4)) for e in (1e-6, 1e-4, 1e-3, 1e-2, 0.03)]
Spec("utils.v_to_c_VTI", "C07", [NS("Vp0", [3.4, 3.0, 4.0], 2, 6), NS("Vp45", [3.6, 3.3, 4.3], 2, 6), NS("Vp90", [4.0, 3.7, 4.6], 2, 6), NS("Vs0", [1.8, 1.5, 2.3], 0.8, 3),
                                 NS("Vsh90", [2.2, 1.7, 2.6], 0.8, 3), NS("den", [2.5, 2.3, 2.7], 1.5, 3)], r_v2c, elementwise=False,
     where=lambda a, b, c, d, e, r: (2 * b ** 2 > (1 + 1e-7) * (c ** 2 + d ** 2)) & (2 * b ** 2 > (1 + 1e-7) * (a ** 2 + d ** 2)), rtol=1e-8, atol=1e-8, tol=t_v2c,
     bases=[(3.4, 3.6, 4.0, 1.8, 2.2, 2.5), (3.0, 3.3, 3.7, 1.5, 1.7, 2.3)] + _e)


# ---- Bond (C08) ----------------------------------------------------------------------------------
def rotm(theta, axis):
    t = np.deg2rad(theta)
    c, s = np.cos(t), np.sin(t)
    if axis == 3:
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def r_bond(Cm, theta, axis=3):
    return rotate(np.asarray(Cm, float), rotm(theta, axis))


def bond_M(R, f2=2.0):
    """6x6 stress Bond matrix built from the tensor rotation (column by column)"""
    M = np.zeros((6, 6))
    from .elastic import VOIGT
    for b, (k, l) in enumerate(VOIGT):
        e = np.zeros((3, 3))
        e[k, l] = e[l, k] = 1.0
        s = R @ e @ R.T
        M[:, b] = [s[i, j] for i, j in VOIGT]
    M[:3, 3:] *= f2 / 2.0
    return M


def d_bond(Cm, theta, axis=3):
    """KF-bond: the upper-right block of the Bond matrix lacks its factor 2"""
    M = bond_M(rotm(theta, axis), 1.0)
    return M @ np.asarray(Cm, float) @ M.T


_ANG = [30.0, 0.0, 90.0, 45.0, 180.0, 360.0, -90.0, 17.0, 270.0, -33.5, 60, 120.0, 450.0, 7]
Spec("Anisotropy.Bond_trans", "C08", [O("C", list(DRY.values()) + [hti(30.0, 36.0, 9.0, 12.0, 10.0)]), NS("theta", _ANG, -360, 720), C("axis", [3, 1])], r_bond, elementwise=False,
     atol=1e-11, known=[("KF-bond", d_bond)], bases=[(DRY["tri"], 30.0, 3), (DRY["vti"], 30.0, 1), (DRY["hti"], 17.0, 3)], sweep_n=361)
Spec("Anisotropy.Bond_trans#default", "C08", [O("C", list(DRY.values())), NS("theta", _ANG, -360, 720)], r_bond, elementwise=False,
     atol=1e-11, known=[("KF-bond", d_bond)], bases=[(DRY["tri"], 30.0)], sweep_n=73)


# ---- Thomsen, velocities (C09) -----------------------------------------------------------------
def r_thomsen(c11, c33, c13, c44, c66, den, th):
    s2 = np.sin(np.pi * th / 180) ** 2
    a2, b2 = c33 / den, c44 / den
    e, g = c11 / c33 / 2 - 0.5, c66 / c44 / 2 - 0.5
    d = (c13 + c33) * (c13 + 2 * c44 - c33) / (2 * c33 * (c33 - c44))
    return (1e3 * np.sqrt(a2) * (1 + d * s2 * (1 - s2) + e * s2 * s2), 1e3 * np.sqrt(b2) * (1 + a2 / b2 * (e - d) * s2 * (1 - s2)),
            1e3 * np.sqrt(b2) * (1 + g * s2), e + 0 * s2, g + 0 * s2, d + 0 * s2)


def r_thomsen_shape(c11, c33, c13, c44, c66, den, th):
    o = list(r_thomsen(c11, c33, c13, c44, c66, den, th))
    e, g = (0.5 * (c11 - c33) / c33), (0.5 * (c66 - c44) / c44)
    o[3], o[4] = e, g
    o[5] = (c13 + c33) * (c13 + 2 * c44 - c33) / (2 * c33 * (c33 - c44))
    b = np.broadcast
    z = 0.0 * (c44 + den)
    o[0] = o[0]
    return tuple(o)


def _bshape(x, *a):
    return np.broadcast_to(x, np.broadcast(*a).shape)


def r_thomsen2(c11, c33, c13, c44, c66, den, th):
    o = r_thomsen_shape(c11, c33, c13, c44, c66, den, th)
    return (o[0], o[1], _bshape(o[2], c44, den, c66, th), _bshape(o[3], c11, c33), _bshape(o[4], c66, c44), _bshape(o[5], c13, c33, c44))


Spec("Anisotropy.Thomsen", "C09", [N("C11", [35.0, 22.0, 28.0, 40.0], 1, 300), N("C33", [25.0, 20.0, 30.0], 1, 300), N("C13", [9.0, 6.0, 12.0, 0.0], -20, 100), N("C44", [8.0, 6.0, 10.0], 0.2, 100),
                                   N("C66", [12.0, 6.0, 9.0, 8.0], 0.2, 100), N("den", [2.5, 2.2, 2.65], 0.1, 8), N("theta", [30.0, 0.0, 45.0, 60.0, 90.0, -20.0, 15], -360, 360)], r_thomsen2, where=lambda c11, c33, c13, c44, c66, den, th: c33 > 1.02 * c44, atol=1e-12)


def r_tt(c11, c22, c33, c12, c13, c23, c44, c55, c66):
    def d(cij, ci, cs):
        return (cij + ci) * (cij + 2 * cs - ci) / (2 * ci * (ci - cs))
    return ((c22 / c33 - 1) / 2, d(c23, c33, c44), (c66 / c55 - 1) / 2, (c11 / c33 - 1) / 2, d(c13, c33, c55), (c66 / c44 - 1) / 2, d(c12, c11, c66))


Spec("Anisotropy.Thomsen_Tsvankin", "C09", [N("C11", [35.0, 28.0, 40.0], 22, 80), N("C22", [32.0, 27.0, 38.0], 15, 80), N("C33", [25.0, 22.0, 30.0], 19, 80), N("C12", [9.0, 11.0, 0.0], -5, 30), N("C13", [8.0, 6.0, 12.0], -5, 30),
                                            N("C23", [7.0, 10.0, 5.0], -5, 30), N("C44", [8.0, 6.0, 10.0], 2, 15), N("C55", [7.0, 9.0, 11.0], 2, 15), N("C66", [12.0, 8.0, 9.0], 2, 18)], r_tt, atol=1e-12)


def _eig2(a, b, c):
    """eigenvalues of [[a,b],[b,c]], larger first"""
    m, r = (a + c) / 2, np.hypot((a - c) / 2, b)
    return m + r, m - r


def r_azi_hti(Cm, den, az):
    x = np.deg2rad(az)
    n1, n2 = np.cos(x), np.sin(x)
    # Christoffel in the x1-x2 plane
    a = Cm[0, 0] * n1 ** 2 + Cm[4, 4] * n2 ** 2
    c = Cm[4, 4] * n1 ** 2 + Cm[2, 2] * n2 ** 2
    b = (Cm[0, 1] + Cm[4, 4]) * n1 * n2
    p, s = _eig2(a, b, c)
    v = Cm[4, 4] * n1 ** 2 + Cm[3, 3] * n2 ** 2
    return np.sqrt(p / den), np.sqrt(s / den), np.sqrt(v / den)


def r_azi_vti(Cm, den, az):
    x = np.deg2rad(az)
    n1, n3 = np.sin(x), np.cos(x)
    a = Cm[0, 0] * n1 ** 2 + Cm[3, 3] * n3 ** 2
    c = Cm[3, 3] * n1 ** 2 + Cm[2, 2] * n3 ** 2
    b = (Cm[0, 2] + Cm[3, 3]) * n1 * n3
    p, s = _eig2(a, b, c)
    return np.sqrt(p / den), np.sqrt((Cm[5, 5] * n1 ** 2 + Cm[3, 3] * n3 ** 2) / den), np.sqrt(s / den)


HTIS = [hti(30.0, 36.0, 9.0, 12.0, 10.0), hti(22.0, 40.0, 6.0, 15.0, 9.0), hti(36.0, 36.0, 12.0, 12.0, 12.0), hti(45.0, 30.0, 5.0, 8.0, 14.0), hti(28.5, 41.25, 11.75, 13.5, 10.25)]
VTIS = [vti(36.0, 30.0, 9.0, 10.0, 12.0), vti(40.0, 22.0, 6.0, 7.0, 15.0), vti(36.0, 36.0, 12.0, 12.0, 12.0), vti(30.0, 45.0, 5.0, 14.0, 8.0), vti(41.25, 28.5, 11.75, 10.25, 13.5)]
_AZ = [30.0, 0.0, 45.0, 90.0, 135.0, 180.0, -30.0, 270.0, 360.0, 10]
Spec("Anisotropy.vel_azi_HTI", "C09", [O("C", HTIS), N("Den", [2.5, 2.2, 2.65], 0.1, 8), N("azimuth", _AZ, -360, 720)], r_azi_hti, bases=[(HTIS[0], 2.5, 30.0), (HTIS[1], 2.2, 135.0), (HTIS[4], 2.65, 17.0)], sweep_n=361)
Spec("Anisotropy.vel_azi_VTI", "C09", [O("C", VTIS), N("Den", [2.5, 2.2, 2.65], 0.1, 8), N("azimuth", _AZ, -360, 720)], r_azi_vti, bases=[(VTIS[0], 2.5, 30.0), (VTIS[1], 2.2, 135.0), (VTIS[4], 2.65, 17.0)], sweep_n=361)


# the same functions over the stiffness components themselves (every component swept, also far from usual rocks)
def _par(fname, build, ref):
    def impl(c11, c33, c13, c44, c6, den, az):
        return getattr(rockphypy.Anisotropy, fname)(build(c11, c33, c13, c44, c6), den, az)

    def model(c11, c33, c13, c44, c6, den, az):
        z = np.zeros(np.broadcast(c11, c33, c13, c44, c6).shape)
        M = {(0, 0): c11, (2, 2): c33, (0, 1): c13, (0, 2): c13, (3, 3): c44, (4, 4): c6, (5, 5): c6}
        return ref({k: v + z for k, v in M.items()}, den, az)
    return impl, model


for _f, _b, _r in (("vel_azi_HTI", hti, r_azi_hti), ("vel_azi_VTI", vti, r_azi_vti)):
    _i, _m = _par(_f, _b, _r)
    Spec("Anisotropy.%s#components" % _f, "C09", [NS("C11", [30.0, 22.0, 45.0, 12.0], 1, 300), NS("C33", [36.0, 25.0, 18.0, 30.0], 1, 300), NS("C13", [9.0, -4.0, -11.0, 0.0, 14.0], -60, 100), NS("C44", [12.0, 3.0, 0.1, 20.0], 0.05, 100),
                                                  NS("C55/C66", [10.0, 12.0, 2.0, 0.1], 0.05, 100), N("Den", [2.5, 2.2], 0.1, 8), N("azimuth", [30.0, 120.0, 0.0, 45.0, 90.0], -360, 720)], _m, call=_i, scalar_shape=None, thread=False,
         where=lambda c11, c33, c13, c44, c6, den, az: np.abs(c13) < 0.9 * np.minimum(c11, c33), bases=[(30.0, 36.0, 9.0, 12.0, 10.0, 2.5, 30.0), (40.0, 22.0, -6.0, 4.0, 15.0, 2.2, 120.0)], rtol=1e-8, sweep_n=61, max_scalar=8000, bulk=0.02)


# ---- Backus (C10) --------------------------------------------------------------------------------
def r_backus(V, lam, g):
    V, lam, g = np.asarray(V, float), np.asarray(lam, float), np.asarray(g, float)
    f = V / V.sum()
    m = lam + 2 * g
    w = 1 / (f / m).sum()
    r = (f * lam / m).sum()
    c11 = (f * (m - lam * lam / m)).sum() + w * r * r
    return c11, w, w * r, 1 / (f / g).sum(), (f * g).sum()


def _stk(n):
    base = [12.0, 5.0, 25.0, 8.0, 12.0, 3.0, 18.0]
    gb = [10.0, 3.0, 20.0, 7.0, 10.0, 1.5, 15.0]
    vb = [1.0, 2.0, 0.5, 3.0, 1.0, 4.0, 0.25]
    return np.array(vb[:n]), np.array(base[:n]), np.array(gb[:n])


_V, _L, _G = [], [], []
for _n in (1, 2, 3, 4, 7):
    v, l, g = _stk(_n)
    _V += [v, v[::-1].copy(), v / v.sum(), np.ones(_n)]
    _L += [l, l[::-1].copy(), np.full(_n, 9.0)]
    _G += [g, g[::-1].copy(), np.full(_n, 6.0)]
_V += [[1.0, 2.0], (0.3, 0.7), np.array([0.0, 1.0]), np.array([1, 2, 3]), [0.2, 0.3, 0.5]]
_L += [[5.0, 12.0], (5.0, 12.0), [12.0, 5.0, 25.0], np.array([12, 5, 25])]
_G += [[3.0, 10.0], (3.0, 10.0), [10.0, 3.0, 20.0], np.array([10, 3, 20])]


def _samelen(*cols):
    return np.array([len({len(x) for x in r}) == 1 for r in zip(*cols)])


Spec("Anisotropy.Backus", "C10", [O("V", _V, elem=(1e-6, 1e4, [1e-6, 1e-3, 1.0, 1e3])), O("lamda", _L, elem=(0.0, 200.0, [0.0, 1e-3, 1.0, 5.0, 60.0])), O("G", _G, elem=(1e-4, 200.0, [1e-4, 0.005, 0.1, 3.0, 100.0]))], r_backus, where=_samelen, elementwise=False, t_quick=3, t_thorough=3, max_scalar=40000,
     bases=[(_V[4], _L[3], _G[3])], rtol=1e-10)


def r_backus_log(vp, vs, den, dep):
    vp, vs, den, dep = (np.asarray(x, float) for x in (vp, vs, den, dep))
    t = dep[1:] - dep[:-1]
    g = den * vs ** 2
    lam = den * vp ** 2 - 2 * g
    return r_backus(t, lam, g) + ((t * den).sum() / t.sum(),)


_VP, _VS, _DN, _DP = [], [], [], []
for _n in (1, 2, 3, 5):
    _VP += [np.array([3.0, 4.0, 3.5, 2.5, 4.5][:_n]), np.array([4.5, 2.75, 3.0, 4.0, 3.5][:_n])]
    _VS += [np.array([1.5, 2.3, 1.9, 1.2, 2.6][:_n]), np.array([2.5, 1.1, 1.4, 2.2, 2.0][:_n])]
    _DN += [np.array([2.2, 2.5, 2.4, 2.1, 2.65][:_n]), np.array([2.6, 2.3, 2.0, 2.45, 2.35][:_n])]
    _DP += [np.cumsum([100.0, 1.0, 2.5, 0.5, 4.0, 3.0])[:_n + 1], np.arange(_n + 1) * 10.0, np.cumsum([0.0, 0.3, 7.0, 2.0, 1.0, 5.0])[:_n + 1], np.cumsum([0.0, 0.001, 70.0, 1e-5, 0.25, 900.0])[:_n + 1], np.cumsum([-5.0, 80.0, 0.01, 3.0, 1e-4, 2.0])[:_n + 1]]
_VP += [[3.0, 4.0], (3.0, 4.0, 3.5)]
_VS += [[1.5, 2.3], (1.5, 2.3, 1.9)]
_DN += [[2.2, 2.5], (2.2, 2.5, 2.4)]
_DP += [-_DP[k] for k in (2, 5, 8)] + [_DP[k][::-1].copy() for k in (5, 10)]     # elevations, listed downwards or upwards
_DP += [[0.0, 1.0, 3.0], (10.0, 11.0, 14.0, 14.5), np.array([100, 101, 104])]
Spec("Anisotropy.Backus_log", "C10", [O("Vp", _VP, elem=(3.8, 9.0, [4.0, 6.0, 9.0])), O("Vs", _VS, elem=(0.05, 1.7, [0.05, 0.4, 1.0])), O("Den", _DN, elem=(0.5, 6.0, [0.5, 1.0, 2.0, 6.0])), O("Depth", _DP)], r_backus_log, elementwise=False, max_scalar=40000, t_quick=3, t_thorough=4,
     where=lambda a, b, c, d: np.array([len(x) == len(y) == len(z) == len(w) - 1 for x, y, z, w in zip(a, b, c, d)]), bases=[(_VP[4], _VS[4], _DN[4], _DP[10]), (_VP[2], _VS[2], _DN[2], _DP[5])], rtol=1e-9)
