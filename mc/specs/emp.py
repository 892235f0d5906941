import numpy as np

from ..core import ND, C, N, NS, O, Spec, no

Z = [2000.0, 500.0, 2630.0, 3000.0, 1393.0, 3500.0, 4000.0, 0.0, 2500, 5300.0]
PHI = [0.2, 0.05, 0.35, 0.01, 0.28, 0.4]


def e(name, params, ref, **k):
    Spec("Empirical." + name, "C17", params, ref, **k)


def zz(hi=8000.0, lo=0.0):
    return [N("Z", [z for z in Z if lo <= z <= hi] + [hi], lo, hi)]


def r_krief(phi, kg, gg):
    m = np.exp(3 / (1 - phi) * np.log(1 - phi))
    b = np.broadcast
    return m * (kg - 2 * gg / 3), m * gg, m * kg


e("krief", [N("phi", PHI + [0.0, 0.7], 0.0, 0.97), N("Kg", [37.0, 21.0, 76.8], 0.1, 300), N("Gg", [44.0, 7.0, 32.0, 0.0], 0.0, 300)], r_krief, atol=1e-11)


def r_esti(vp, sh):
    sd, sl = 0.80416e-3 * vp - 0.85588, 0.76969e-3 * vp - 0.86735
    return 500 * (sd + sh * (sl - sd) + sd * sl / ((1 - sh) * sl + sh * sd))


e("esti_VS", [N("Vp", [3000.0, 2000.0, 4500.0, 2500], 1150, 9000), N("vsh", [0.3, 0.0, 1.0, 0.5], 0, 1)], r_esti)
e("han", [N("phi", PHI + [0.0, 0.8], 0, 1), N("C", [0.2, 0.0, 0.4, 0.05, 1.0], 0, 1)], lambda p, c: (5590 - 6930 * p - 2810 * c, 3520 - 4910 * p - 1890 * c), atol=1e-9)
e("ehrenberg", zz(8000.0), lambda z: 0.4802422 - 9.2200747e-5 * z, atol=1e-13)
e("yu_segment_trend", zz(8000.0), lambda z: np.where(z > 2630, 1200.84 + 0.853 * z, 1707.998 + 0.66 * z), lists=["Z"])
e("ramm_porosity", zz(8000.0) + [C("HB", [True, False])], lambda z, hb: 0.464 - 8.5e-5 * z if hb else 0.427 - 6.9e-5 * z, atol=1e-13)
e("ramm_porosity#default", zz(8000.0), lambda z: 0.464 - 8.5e-5 * z, atol=1e-13)


def r_ramm_seg(z):
    z = np.asarray(z, float)
    a, b = 45 * np.exp(-z / 4000), 57.5 - 0.013 * z
    return np.where(a < b, a, b)


e("ramm_porosity_segment", zz(6000.0), r_ramm_seg, atol=1e-10)
_ST = {1: ((4210, 187, 746, 24), (2580, 160, 781, 20)), 2: ((4550, 298, 800, 19), (2830, 195, 741, 16))}


def r_stp(pe, sample=1):
    return tuple(a + b * pe - c * np.exp(-d * pe) for a, b, c, d in _ST[sample])


_PE = N("Pe", [0.2, 0.0, 0.05, 0.5, 1.0, 1, 10.0], 0, 60)
e("empirical_StPeter", [_PE, C("sample", [1, 2])], r_stp)
e("empirical_StPeter#default", [_PE], r_stp)
e("Scherbaum", zz(8000.0), lambda z: 0.51 * z + 2325)
e("Sclater", [N("phi", PHI + [0.49], 1e-4, 1.0)], lambda p: -3.7 * (np.log(p) - np.log(0.49)), atol=1e-13)
e("Storvoll", zz(8000.0), lambda z: 2600 + z * 25 / 44)
e("Hillis", zz(6500.0), lambda z: 304800 / (135.9 - 0.02022 * z))


def r_jap(z):
    z = np.asarray(z, float)
    o = np.where(z < 1393, 1550 + 0.6 * z, np.where(z < 2000, 2 * z - 400, np.where(z < 3500, 2600 + z / 2, 3475 + z / 4)))
    return np.where(z < 5300, o, np.nan)


e("Japsen", [N("Z", Z + [1999.0, 5299.0, 6000.0], 0, 9000)], r_jap, nan_sig=True, lists=["Z"])
e("hjelstuen", zz(8000.0), lambda z: 1870 + 0.55 * z)
e("Cp", [N("phi", PHI + [0.0, 1.0], 0, 1)], lambda p: 6 * (1 - p) + 14 * (1 - p) ** 2)
