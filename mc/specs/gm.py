import numpy as np
from scipy.integrate import quad

import rockphypy

from ..core import ND, C, N, NS, O, Spec, no
from .elastic import vti

K0 = N("K0", [37.0, 21.0, 76.8, 36.6], 1, 300)
G0 = N("G0", [44.0, 7.0, 32.0, 45.0], 0.5, 200)
PHIC = N("phic", [0.4, 0.36, 0.45, 0.25], 0.1, 0.8)
CN = N("Cn", [8.6, 6.0, 9, 12.5], 1, 30)
SIG = N("sigma", [20.0, 5.0, 0.0, 50.0, 1.0, 10], 0, 500)
SIGP = N("sigma", [20.0, 5.0, 50.0, 1.0, 10], 0.001, 500)
F = N("f", [0.5, 0.0, 1.0, 0.3], 0, 1)
PHI = N("phi", [0.2, 0.3, 0.05, 0.0, 0.35], 0, 0.8)
KC = N("Kc", [37.0, 45.0, 60.0, 20.0], 2, 300)
GC = N("Gc", [45.0, 30.0, 20.0, 15.0], 0.5, 200)
SCH = C("scheme", [1, 2])


def nu(k, g):
    return (3 * k - 2 * g) / (2 * (3 * k + g))


# ---- contact theories (C11) ------------------------------------------------------------------------
def r_hm(k0, g0, phic, cn, sig, f):
    """Hertz normal and Mindlin tangential stiffness per contact, effective moduli by Walton's average"""
    v = nu(k0, g0)
    P = sig * 1e-3
    aR = np.cbrt(3 * np.pi * (1 - v) / (2 * cn * (1 - phic) * g0) * P)
    sn, st = 4 * g0 * aR / (1 - v), 8 * g0 * aR / (2 - v)
    k = cn * (1 - phic) / (12 * np.pi) * sn
    g = cn * (1 - phic) / (20 * np.pi) * (sn + 1.5 * f * st)
    return k, g


Spec("GM.hertzmindlin", "C11", [K0, G0, PHIC, CN, SIG, F], r_hm, atol=1e-12, bases=[(37.0, 44.0, 0.4, 8.6, 20.0, 0.5), (21.0, 7.0, 0.36, 6.0, 5.0, 1.0), (76.8, 32.0, 0.45, 9, 50.0, 0.0)])
Spec("GM.Walton", "C11", [K0, G0, PHIC, CN, SIG, F], r_hm, atol=1e-12, bases=[(37.0, 44.0, 0.4, 8.6, 20.0, 0.5), (21.0, 7.0, 0.36, 6.0, 5.0, 1.0), (76.8, 32.0, 0.45, 9, 50.0, 0.0)])


def r_digby(k0, g0, phi, cn, sig, a):
    v = nu(k0, g0)
    rhs = 3 * np.pi * (1 - v) * sig * 1e-3 / (2 * cn * (1 - phi) * g0)
    a, rhs = np.broadcast_arrays(np.asarray(a, float), np.asarray(rhs, float))
    # d^3 + 1.5 a^2 d = rhs : one real root, closed form (hyperbolic) with a Newton polish
    d = np.cbrt(rhs)
    for _ in range(40):
        d = d - (d ** 3 + 1.5 * a * a * d - rhs) / np.where(3 * d * d + 1.5 * a * a > 0, 3 * d * d + 1.5 * a * a, 1)
    b = np.sqrt(d * d + a * a)
    sn, st = 4 * g0 * b / (1 - v), 8 * g0 * a / (2 - v)
    return cn * (1 - phi) * sn / (12 * np.pi), cn * (1 - phi) * (sn + 1.5 * st) / (20 * np.pi)


_DF = set(ND)
Spec("GM.Digby", "C11", [NS("K0", K0.vals, 1, 300), NS("G0", G0.vals, 0.5, 200), NS("phi", [0.36, 0.4, 0.3], 0.0, 0.9), NS("Cn", CN.vals, 1, 30), SIG, NS("a_R", [0.02, 0.05, 0.0, 0.1], 0, 1)], r_digby, atol=1e-9, scalar_shape=(1,),
     max_scalar=5000, sweep_n=31, bulk=0.15, noforms=no("sigma", ND) | {"nan0", "nanmid", "nanlast"}, bases=[(37.0, 44.0, 0.36, 9, 20.0, 0.02), (21.0, 7.0, 0.4, 6.0, 5.0, 0.0)])


def _I(n, al):
    return quad(lambda x: x ** n * np.sqrt(al * al + x * x), 0, 1, epsabs=1e-13, epsrel=1e-13)[0]


def _johnson(defect):
    def f(k0, g0, n, phi, e, e3, path="together"):
        v = nu(k0, g0)
        cn, ct = 4 * g0 / (1 - v), 8 * g0 / (2 - v)
        bw, cw = 2 / (np.pi * cn), 4 / np.pi * (1 / ct - 1 / cn)
        al = np.sqrt(e / e3)
        a2 = al * al
        if defect:
            i0 = (np.sqrt(1 + a2) + a2 * np.log(1 + np.sqrt(1 + a2) / al)) / 2
            i2 = ((1 + a2) ** 1.5 - a2 * i0) / 4
            i4 = ((1 + a2) ** 1.5 - 3 * a2 * i2) / 6
        else:
            i0, i2, i4 = _I(0, al), _I(2, al), _I(4, al)
        ga = 3 / 32 * cn * ct * n * (1 - phi) * np.sqrt(-e) / al
        c11 = ga * (4 * bw / 3 + 2 * cw / 5 + a2 * (2 * bw / 15 + cw / 35)) if defect else ga * (2 * bw * (i0 - i2) + 0.75 * cw * (i0 - 2 * i2 + i4))
        c = vti(c11, ga * (4 * bw * i2 + 2 * cw * i4), ga * cw * (i2 - i4), ga * (bw / 2 * (i0 + i2) + cw * (i2 - i4)), ga * (bw * (i0 - i2) + cw / 4 * (i0 - 2 * i2 + i4)))
        t = -(-e) ** 1.5 * (1 - phi) * n / (4 * np.pi * al ** 3)
        x = {"together": i2 - i4, "uni_iso": 1 / 12, "iso_uni": a2 * i0 + (1 - a2) * i2 - i4 - 2 * al ** 3 / 3, "iso-uni": a2 * i0 + (1 - a2) * i2 - i4 - 2 * al ** 3 / 3}[path]
        return c, 2 * t * (ct * x + cn * (a2 * i2 + i4)), t * (-ct * x + cn * (a2 * i0 + (1 - a2) * i2 - i4))
    return f


_JP = [NS("K0", K0.vals, 1, 300), NS("G0", G0.vals, 0.5, 200), NS("n", [9.0, 6, 8.6], 1, 30), NS("phi", [0.4, 0.36, 0.3], 0.0, 0.9), NS("epsilon", [-1e-3, -5e-4, -1e-2], -5e-2, -1e-6), NS("epsilon_axial", [-1e-3, -2e-3, -1e-4], -5e-2, -1e-6)]
_JB = [(37.0, 44.0, 9.0, 0.4, -1e-3, -1e-3), (21.0, 7.0, 6, 0.36, -5e-4, -2e-3)]
for _t, _x in (("", [C("path", ["together", "uni_iso", "iso_uni"])]), ("#default", [])):
    Spec("GM.johnson" + _t, "C11", _JP + _x, _johnson(False), elementwise=False, known=[("KF-johnson", _johnson(True))], rtol=1e-7, atol=1e-10, bases=[b + (("together",) if _x else ()) for b in _JB],
         where=lambda k, g, n, p, e, e3, *x: (e / e3 < 2500) & (e / e3 > 1e-3), max_scalar=4000)


# ---- sand / cement models (C12) ---------------------------------------------------------------------
def mix(x, ka, ga, kb, gb, kz, gz):
    """Hashin-Shtrikman-Walpole mixing of fraction x of (ka, ga) with 1-x of (kb, gb), coating material (kz, gz)"""
    z1 = 4 * gz / 3
    z2 = gz * (9 * kz + 8 * gz) / (6 * (kz + 2 * gz))
    # stable form of the harmonic mean: a*b-type weighting
    k = (ka * (kb + z1) * x + kb * (ka + z1) * (1 - x)) / ((kb + z1) * x + (ka + z1) * (1 - x))
    g = (ga * (gb + z2) * x + gb * (ga + z2) * (1 - x)) / ((gb + z2) * x + (ga + z2) * (1 - x))
    return k, g


def r_soft(k0, g0, phi, phic, cn, sig, f):
    k, g = r_hm(k0, g0, phic, cn, sig, f)
    return mix(phi / phic, k, g, k0, g0, k, g)


def r_stiff(k0, g0, phi, phic, cn, sig, f):
    k, g = r_hm(k0, g0, phic, cn, sig, f)
    return mix(phi / phic, k, g, k0, g0, k0, g0)


_SP = [K0, G0, PHI, PHIC, CN, SIGP, F]
_SB = [(37.0, 44.0, 0.2, 0.4, 8.6, 20.0, 0.5), (21.0, 7.0, 0.3, 0.36, 6.0, 5.0, 1.0), (76.8, 32.0, 0.05, 0.45, 9, 50.0, 0.0)]
Spec("GM.softsand", "C12", _SP, r_soft, where=lambda k, g, p, pc, c, s, f: p <= pc, atol=1e-10, bases=_SB)
Spec("GM.stiffsand", "C12", [K0, G0, PHI, PHIC, CN, SIG, F], r_stiff, where=lambda k, g, p, pc, c, s, f: p <= pc, atol=1e-10, bases=_SB)


def r_cc(k0, g0, kc, gc, phi, phic, cn, scheme):
    v, vc = nu(k0, g0), nu(kc, gc)
    s = phic - phi
    s = np.where(np.abs(s) < 1e-15, 0.0, s)[()]
    al = 2 * np.power(s / (3 * cn * (1 - phic)), 0.25) if scheme == 1 else np.sqrt(2 * s / (3 * (1 - phic)))
    ln = 2 * gc / (np.pi * g0) * (1 - v) * (1 - vc) / (1 - 2 * vc)
    lt = gc / (np.pi * g0)
    an, bn, c_n = -0.024153 * ln ** -1.3646, 0.20405 * ln ** -0.89008, 0.00024649 * ln ** -1.9864
    at = -0.01 * (2.26 * v * v + 2.07 * v + 2.3) * lt ** (0.079 * v * v + 0.1754 * v - 1.342)
    bt = (0.0573 * v * v + 0.0937 * v + 0.202) * lt ** (0.0274 * v * v + 0.0529 * v - 0.8765)
    c_t = 1e-4 * (9.654 * v * v + 4.945 * v + 3.1) * lt ** (0.01867 * v * v + 0.4011 * v - 1.8186)
    sn, st = (an * al + bn) * al + c_n, (at * al + bt) * al + c_t
    k = cn * (1 - phic) * (kc + 4 * gc / 3) * sn / 6
    return k, 0.6 * k + 0.15 * cn * (1 - phic) * gc * st


_okc = lambda kc, gc: 3 * kc > 0.2 * gc
PB = N("phi_b", [0.37, 0.3, 0.38, 0.28], 0.02, 0.8)
_gap = lambda a, b: (b - a > 1e-3) | (a == b)     # away from the fourth-root singularity except exactly on it
Spec("GM.contactcement", "C12", [K0, G0, KC, GC, PHI, PHIC, CN, SCH], r_cc, where=lambda k, g, kc, gc, p, pc, c, s: (p <= pc) & _gap(p, pc) & _okc(kc, gc), atol=1e-10, rtol=1e-8,
     bases=[(37.0, 44.0, 37.0, 45.0, 0.35, 0.4, 8.6, 1), (21.0, 7.0, 60.0, 20.0, 0.3, 0.36, 9, 2), (76.8, 32.0, 45.0, 30.0, 0.2, 0.45, 6.0, 1)])


def r_const(pb, k0, g0, kc, gc, phi, phic, cn, scheme):
    k, g = r_cc(k0, g0, kc, gc, pb, phic, cn, scheme)
    return mix(phi / pb, k, g, k0, g0, k, g)


def r_muhs(k0, g0, kc, gc, phi, pb, phic, cn, scheme):
    k, g = r_cc(k0, g0, kc, gc, pb, phic, cn, scheme)
    return mix(phi / pb, k, g, k0, g0, k0, g0)


Spec("GM.constantcement", "C12", [PB, K0, G0, KC, GC, PHI, PHIC, CN, SCH], r_const, where=lambda pb, k, g, kc, gc, p, pc, c, s: (p <= pc) & (pb < pc - 1e-3) & _okc(kc, gc), atol=1e-9, rtol=1e-8,
     bases=[(0.37, 37.0, 44.0, 37.0, 45.0, 0.2, 0.4, 8.6, 1), (0.3, 21.0, 7.0, 60.0, 20.0, 0.3, 0.36, 9, 2), (0.38, 76.8, 32.0, 45.0, 30.0, 0.05, 0.45, 6.0, 1)])
Spec("GM.MUHS", "C12", [K0, G0, KC, GC, PHI, PB, PHIC, CN, SCH], r_muhs, where=lambda k, g, kc, gc, p, pb, pc, c, s: (p <= pc) & (pb < pc - 1e-3) & _okc(kc, gc), atol=1e-9, rtol=1e-8,
     bases=[(37.0, 44.0, 37.0, 45.0, 0.2, 0.37, 0.4, 8.6, 1), (21.0, 7.0, 60.0, 20.0, 0.3, 0.3, 0.36, 9, 2), (76.8, 32.0, 45.0, 30.0, 0.05, 0.38, 0.45, 6.0, 1)])


def _cem(k0, g0, phic, vcem, vci, kc, gc, cn, scheme):
    a = r_cc(k0, g0, kc, gc, phic - vcem, phic, cn, scheme)
    b = r_muhs(k0, g0, kc, gc, phic - vcem, phic - vci, phic, cn, scheme)
    m = vcem <= vci
    return np.where(m, a[0], b[0])[()], np.where(m, a[1], b[1])[()]


def _patch(f, ku, gu, kc, gc, stiff):
    return mix(f, kc, gc, ku, gu, kc, gc) if stiff else mix(f, kc, gc, ku, gu, ku, gu)


def r_pcm(f, sig, k0, g0, phi, phic, vcem, vci, kc, gc, cn, mode, scheme, f_):
    u = r_hm(k0, g0, phic, cn, sig, f_)
    c = _cem(k0, g0, phic, vcem, vci, kc, gc, cn, scheme)
    k, g = _patch(f, *u, *c, mode == "stiff")
    return mix(phi / phic, k, g, k0, g0, k, g)


def r_vpcm(al, f, sig, k0, g0, phi, phic, vcem, vci, kc, gc, cn, scheme, f_):
    u = r_hm(k0, g0, phic, cn, sig, f_)
    c = _cem(k0, g0, phic, vcem, vci, kc, gc, cn, scheme)
    a, b = _patch(f, *u, *c, True), _patch(f, *u, *c, False)
    k, g = (1 - al) * a[0] + al * b[0], (1 - al) * a[1] + al * b[1]
    return mix(phi / phic, k, g, k0, g0, k, g)


_pc = [K0, G0, PHI, PHIC, NS("v_cem", [0.03, 0.05, 0.1, 0.08, 0.02, 0.005], 0.001, 0.4), NS("v_ci", [0.04, 0.1, 0.05, 0.08], 0.002, 0.4), KC, GC, CN]
FP = N("f", [0.5, 0.0, 1.0, 0.3], 0, 1)
_pw = lambda p, pc, kc, gc, v, vi: (p <= pc) & _okc(kc, gc) & (v < pc - 0.02) & (vi < pc - 0.02)
Spec("GM.pcm", "C12", [FP, SIGP] + _pc + [C("mode", ["stiff", "soft"]), SCH, N("f_", [0.5, 0.0, 1.0], 0, 1)], r_pcm, where=lambda f, s, k, g, p, pc, v, vi, kc, gc, c, m, sc, f_: _pw(p, pc, kc, gc, v, vi), atol=1e-9, rtol=1e-7,
     bases=[(0.5, 20.0, 37.0, 44.0, 0.2, 0.4, 0.03, 0.04, 37.0, 45.0, 8.6, "stiff", 1, 0.5), (0.3, 5.0, 21.0, 7.0, 0.3, 0.36, 0.1, 0.05, 60.0, 20.0, 9, "soft", 2, 1.0)])
Spec("GM.vpcm", "C12", [N("alpha", [0.4, 0.0, 1.0, 0.7], 0, 1), FP, SIGP] + _pc + [SCH, N("f_", [0.5, 0.0, 1.0], 0, 1)], r_vpcm, where=lambda al, f, s, k, g, p, pc, v, vi, kc, gc, c, sc, f_: _pw(p, pc, kc, gc, v, vi), atol=1e-9, rtol=1e-7,
     bases=[(0.4, 0.5, 20.0, 37.0, 44.0, 0.2, 0.4, 0.03, 0.04, 37.0, 45.0, 8.6, 1, 0.5), (0.7, 0.3, 5.0, 21.0, 7.0, 0.3, 0.36, 0.1, 0.05, 60.0, 20.0, 9, 2, 1.0)])


def dil_call(k, s0, s, m):
    """documented for array stresses: a scalar stress is passed as an array of one element"""
    if all(np.ndim(x) == 0 for x in (k, s0, s, m)):
        return rockphypy.GM.diluting(k, s0, np.array([s]), m)[0]
    if isinstance(s, (int, float)):
        s = np.float64(s)
    return rockphypy.GM.diluting(k, s0, s, m)


def r_dil(k, s0, s, m):
    x = 1 - np.asarray(s, float) / s0
    with np.errstate(all="ignore"):
        return np.where(x >= 0, k * np.power(np.abs(x), m), 0.0)[()]


_im = lambda m: m == np.round(m)
Spec("GM.diluting", "C12", [N("k", [1.0, 0.5, 1.5, 1, 40.0], 0, 100), N("sigma0", [20.0, 30, 50.0], 0.5, 200), N("sigma", [5.0, 0.0, 20.0, 10, 45.0], 0, 200), N("m", [2.5, 1, 2, 0.5, 3.5], 0.05, 9)], r_dil, where=lambda k, s0, s, m: (s <= s0) | (~_im(m) & (s > s0 * (1 + 1e-9))),
     call=dil_call, atol=1e-12, noforms={"nan0", "nanmid", "nanlast"})
Spec("GM.ThomasStieber", "C12", [N("phi_sand", [0.3, 0.4, 0.25, 0.0], 0.0, 1), N("phi_sh", [0.15, 0.1, 0.25, 0.3, 0.6], 0.0, 1), N("vsh", [0.3, 0.0, 1.0, 0.1, 0.6], 0, 1)],
     lambda a, b, v: (np.maximum(a - (1 - b) * v, b * v), (1 - v) * a + v * b), atol=1e-12)
_kk = [N("Kq", [37.0, 36.6], 1, 300), N("Gq", [44.0, 45.0, 32.0], 0.5, 200), N("Ksh", [21.0, 12.0, 50.0], 0.5, 200), N("Gsh", [7.0, 5.0, 50.0], 0.1, 200)]
Spec("GM.silty_shale", "C12", [N("C", [0.5, 0.0, 1.0, 0.2], 0, 1)] + _kk, lambda c, kq, gq, ks, gs: mix(c, ks, gs, kq, gq, ks, gs), atol=1e-10)
Spec("GM.shaly_sand", "C12", [N("phis", [0.4, 0.36], 0.02, 0.9), N("C", [0.2, 0.0, 0.36, 0.1], 0, 0.9), N("Kss", [18.0, 10.0], 0.5, 200), N("Gss", [9.0, 5.0], 0.1, 200), N("Kcc", [25.0, 14.0, 5.0], 0.5, 200), N("Gcc", [12.0, 8.0, 3.0], 0.1, 200)],
     lambda p, c, ks, gs, kc, gc: mix(c / p, kc, gc, ks, gs, ks, gs), where=lambda p, c, ks, gs, kc, gc: c <= p, atol=1e-10)
