import numpy as np
import scipy.special as sp

from ..core import ND, C, N, NS, O, Spec, no, scaled

PHI = [0.2, 0.05, 0.35, 0.01, 0.28, 0.4]
KD = [12.0, 3.0, 20.0, 0.5]
GD = [10.0, 2.5, 18.0, 0.1]
K0 = [37.0, 21.0, 70.8, 45.0]
KF = [2.25, 0.02, 1.0, 2.8, 0.1]


# ---- reference models -------------------------------------------------------------------------
def r_brie(kw, kg, sw, e):
    return kg + (kw - kg) * np.power(sw, e)


def r_gassmann(kd, g, k0, kf, phi):
    # Ksat = Kd + (K0-Kd)^2 / (phi K0^2/Kf + (1-phi) K0 - Kd)
    return kd + (k0 - kd) ** 2 / (phi * k0 * k0 / kf + (1 - phi) * k0 - kd), g * 1.0


def r_gas_sub(phi, k0, ks1, f1, f2):
    # the same dry frame before and after, eliminated from K/(K0-K) = Kd/(K0-Kd) + Kf/(phi (K0-Kf)) written for both fluids
    # (numerically harmless at small porosity, where the detour through Kd loses all digits)
    x = ks1 / (k0 - ks1) + (f2 - f1) * k0 / (phi * (k0 - f1) * (k0 - f2))
    return k0 - k0 / (1 + x)


def r_vels(kd, g, k0, d0, kf, df, phi):
    k, _ = r_gassmann(kd, g, k0, kf, phi)
    rho = (1 - phi) * d0 + phi * df
    return 1000 * np.sqrt((3 * k + 4 * g) / (3 * rho)), 1000 * np.sqrt(g / rho), rho


def r_gas_vels(vp1, vs1, rho1, rf1, f1, rf2, f2, k0, phi):
    g = rho1 * vs1 * vs1
    ks1 = rho1 * vp1 * vp1 - 4 * g / 3
    ks2 = r_gas_sub(phi, k0, ks1, f1, f2)
    rho2 = rho1 + phi * (rf2 - rf1)
    return np.sqrt((ks2 + 4 * g / 3) / rho2), np.sqrt(g / rho2)


def r_gas_approx(m1, m0, f1, phi, f2):
    return r_gas_sub(phi, m0, m1, f1, f2)


def kd_from_sat(phi, k0, ks1, f1):
    q = phi * k0 / f1
    return (ks1 * (q + 1 - phi) - k0) / (q + ks1 / k0 - 1 - phi)


def ok_frame(kd, k0, kf, phi):
    """frame not stiffer than the mineral and Gassmann's denominator positive"""
    return (kd >= 0) & (phi * k0 / kf + 1 - phi - kd / k0 > 1e-4)


def _sub_ok(phi, k0, ks, f1, f2):
    """fluid substitution is an algebraic map: it is demanded wherever it is regular, also for samples outside the
    physical bounds (measured logs contain them); points next to its poles are left out"""
    def away(x):
        return np.abs(x - 1) > 1e-3
    kd = kd_from_sat(phi, k0, ks, f1)
    ks2 = r_gassmann(kd, 0.0, k0, f2, phi)[0]
    return away(ks / k0) & away(f1 / k0) & away(f2 / k0) & (np.abs(kd) < 1e3 * k0) & (np.abs(ks2) < 1e3 * k0) & away(ks2 / k0)


Spec("Fluid.Brie", "C01", [N("Kw", [2.5, 2.2, 3.0, 1.0], 0.05, 40), N("Kgas", [0.05, 0.01, 0.3, 1.0, 3.0], 0.0, 10),
                           N("Sw", [0.5, 0.0, 1.0, 0.1, 0.9, 0.33], 0, 1), N("e", [3, 1, 2, 5, 2.5], 0.25, 60)], r_brie,
     bases=[(2.5, 0.05, 0.5, 3), (2.2, 0.3, 0.9, 1)], atol=1e-12)
Spec("Fluid.Gassmann", "C01", [N("K_dry", KD + [37.0], 0.0, 120), N("G_dry", GD + [0.0], 0.0, 120), N("K_mat", K0, 1, 200), N("Kf", KF + [20.0], 1e-4, 60), N("phi", PHI + [0.0, 0.6], 0.0, 0.99)],
     r_gassmann, where=lambda kd, g, k0, kf, phi: ok_frame(kd, k0, kf, phi), bases=[(12.0, 10.0, 37.0, 2.25, 0.2), (3.0, 2.5, 21.0, 0.02, 0.35), (20.0, 18.0, 70.8, 2.8, 0.05)])
Spec("Fluid.Gassmann_sub", "C01", [N("phi", PHI + [0.5, 1e-5], 1e-6, 0.9), N("K0", K0, 3, 200), N("Ksat1", [15.0, 8.0, 25.0, 30.0, 2.0], 0.2, 150), N("Kfl1", KF, 1e-4, 12), N("Kfl2", [2.25, 0.05, 1.0, 2.8, 0.9, 0.001], 1e-4, 12)],
     r_gas_sub, where=lambda phi, k0, ks, f1, f2: _sub_ok(phi, k0, ks, f1, f2),
     bases=[(0.2, 37.0, 15.0, 2.25, 0.05), (0.28, 37.0, 12.0, 0.1, 2.8), (0.1, 70.8, 30.0, 1.0, 2.25)])
Spec("Fluid.vels", "C01", [N("K_dry", KD + [37.0], 0.0, 120), N("G_dry", GD + [0.0], 0.0, 120), N("K0", K0, 1, 200), N("D0", [2.65, 2.58, 2.87, 0.9], 0.5, 20), N("Kf", KF, 1e-4, 40), N("Df", [1.0, 0.1, 0.75, 1.1, 0.0], 0.0, 5), N("phi", PHI + [0.0, 0.5], 0.0, 0.99)],
     r_vels, where=lambda kd, g, k0, d0, kf, df, phi: ok_frame(kd, k0, kf, phi), bases=[(12.0, 10.0, 37.0, 2.65, 2.25, 1.0, 0.2), (3.0, 2.5, 21.0, 2.58, 0.02, 0.1, 0.35)])


def _gv_ok(vp1, vs1, rho1, rf1, f1, rf2, f2, k0, phi):
    g = rho1 * vs1 ** 2
    ks = rho1 * vp1 ** 2 - 4 * g / 3
    return (ks > 0) & _sub_ok(phi, k0, ks, f1, f2) & (rho1 + phi * (rf2 - rf1) > 0.3)


Spec("Fluid.Gassmann_vels", "C01", [N("Vp1", [3.5, 3.0, 4.0, 4.4], 0.8, 8), N("Vs1", [2.0, 1.5, 2.3, 2.6, 0.3, 0.0], 0.0, 5), N("rho1", [2.3, 2.1, 2.5], 1.2, 4.5), N("rhofl1", [1.0, 0.7, 1.1, 0.1], 0.0, 2.5), N("Kfl1", [2.25, 1.0, 2.8, 0.05], 1e-3, 6),
                                    N("rhofl2", [0.1, 1.0, 0.75, 1.05, 0.0], 0.0, 2.5), N("Kfl2", [0.05, 2.25, 0.9, 2.8, 0.001], 1e-3, 6), N("K0", [37.0, 45.0, 70.8], 10, 200), N("phi", [0.2, 0.28, 0.12, 0.3, 0.02, 1e-5], 1e-6, 0.6)],
     r_gas_vels, where=_gv_ok, bases=[(3.5, 2.0, 2.3, 1.0, 2.25, 0.1, 0.05, 37.0, 0.2), (3.0, 1.5, 2.1, 1.05, 2.8, 0.75, 0.9, 37.0, 0.28), (4.0, 2.3, 2.5, 0.7, 1.0, 1.0, 2.25, 45.0, 0.12)])
Spec("Fluid.Gassmann_approx", "C01", [N("Msat1", [28.0, 20.0, 40.0, 35.0], 0.5, 250), N("M0", [97.0, 70.0, 130.0], 15, 400), N("Mfl1", [2.25, 0.1, 1.0, 2.8], 1e-3, 12), N("phi", [0.2, 0.28, 0.12, 0.3, 0.02, 1e-5], 1e-6, 0.9), N("Mfl2", [0.05, 2.25, 0.9, 2.8], 1e-3, 12)],
     r_gas_approx, where=lambda m1, m0, f1, phi, f2: _sub_ok(phi, m0, m1, f1, f2),
     bases=[(28.0, 97.0, 2.25, 0.2, 0.05), (40.0, 130.0, 0.1, 0.12, 2.8)])


# ---- Biot ------------------------------------------------------------------------------------
def _biot_core(kd, g, k0, kf, rho0, rhof, eta, phi, kap, a, al, f):
    rho = (1 - phi) * rho0 + phi * rhof
    D = k0 * (1 + phi * (k0 / kf - 1))
    H = kd + 4 * g / 3 + (k0 - kd) ** 2 / (D - kd)
    Cc = k0 * (k0 - kd) / (D - kd)
    M = k0 * k0 / (D - kd)
    w = 2 * np.pi * f
    ze = np.atleast_1d(np.sqrt(w * a * a * rhof / eta))
    # T = (ber' + i bei') / (ber + i bei), computed with exponentially scaled Bessel functions
    x = ze * np.exp(1j * 3 * np.pi / 4)
    with np.errstate(all="ignore"):
        T = np.exp(1j * 3 * np.pi / 4) * sp.jve(1, ze * np.exp(-1j * np.pi / 4)) / sp.jve(0, ze * np.exp(-1j * np.pi / 4))
    T = np.where(ze > 1e3, (1 + 1j) / np.sqrt(2), T)
    F = ze * T / (4 * (1 + 2j * T / ze))
    F = np.where(ze < 0.1, 1.0 + 0j, F)
    q = al * rhof / phi - 1j * eta * F / (w * kap)
    A2 = Cc ** 2 - M * H
    B2 = H * q + M * rho - 2 * Cc * rhof
    C2 = rhof ** 2 - rho * q
    return rho, rhof, g, q, A2, B2, C2


def r_biot(*a):
    rho, rhof, g, q, A2, B2, C2 = _biot_core(*a)
    s = np.sqrt(B2 * B2 - 4 * A2 * C2)
    r1, r2 = (-B2 + s) / (2 * A2), (-B2 - s) / (2 * A2)
    # numerically stable: larger root first, other from the product
    big = np.where(np.abs(r1) > np.abs(r2), r1, r2)
    small = C2 / (A2 * big)
    v = [1 / np.sqrt(x).real for x in (small, big)]
    fast = np.where(v[0] >= v[1], small, big)
    slow = np.where(v[0] >= v[1], big, small)
    ss = (rho * q - rhof ** 2) / (g * q)
    out = [1 / np.sqrt(x).real for x in (fast, slow, ss)] + [(1 / x).imag / (1 / x).real for x in (fast, slow, ss)]
    return tuple(out)


def t_biot(*a):
    rho, rhof, g, q, A2, B2, C2 = _biot_core(*a)
    r = r_biot(*a)
    e = 3e-15 * np.abs(B2 / A2)
    rel = [e * np.maximum(r[0] ** 2, 0), e * r[1] ** 2]
    return (r[0] * rel[0] * 2, r[1] * rel[1] * 2, 0 * r[2], 4 * rel[0] + 1e-14, 4 * rel[1] + 1e-14, 0 * r[5] + 1e-14)


Spec("Fluid.Biot", "C03", [N("Kdry", [2.6, 8.0, 15.0], 0.1, 60, lits=False), N("Gdry", [1.8, 6.0, 12.0], 0.1, 60, lits=False), N("K0", [36.0, 45.0, 76.8], 15, 120), N("Kfl", [2.25, 0.1, 1.0], 0.01, 4),
                           N("rho0", [2.65, 2.71], 1.5, 5), N("rhofl", [1.0, 0.3, 1.1], 0.05, 1.6), N("eta", [0.001, 0.0001, 0.01], 1e-5, 1), N("phi", [0.2, 0.3, 0.1, 0.4], 0.005, 0.6),
                           N("kapa", [1e-2, 1e-1, 1e-4], 1e-6, 10, log=True), N("a", [0.5, 0.1, 2.0], 0.01, 20), N("alpha", [2.0, 1.0, 3.0, 1.5], 1, 8),
                           N("freq", [1e-3, 1e-2, 0.1, 1.0, 10.0, 1e3, 1e5, 1e7, 1e9], 1e-4, 1e10, log=True, lits=False)],
     r_biot, where=lambda kd, g, k0, kf, rho0, rhof, eta, phi, kap, a, al, f: ok_frame(kd, k0, kf, phi) & (kf < k0),
     bases=[(2.6, 1.8, 36.0, 2.25, 2.65, 1.0, 0.001, 0.3, 1e-2, 0.5, 2.0, 10.0), (8.0, 6.0, 45.0, 0.1, 2.71, 0.3, 0.0001, 0.2, 1e-1, 0.1, 1.5, 1e3), (15.0, 12.0, 76.8, 1.0, 2.65, 1.1, 0.01, 0.1, 1e-4, 2.0, 3.0, 1e7)],
     rtol=1e-7, tol=t_biot, scalar_shape=(1,), noforms={"series"} | no("a eta freq rhofl", ND))


def r_biot_hf(kd, g, k0, kf, rho0, rhof, phi, al):
    # generalised eigenproblem  |P - V^2 r11, Q - V^2 r12; ..| = 0 solved as a quadratic in V^2
    rho = (1 - phi) * rho0 + phi * rhof
    r12 = -(al - 1) * phi * rhof
    r11 = (1 - phi) * rho0 - r12
    r22 = phi * rhof - r12
    dd = 1 - phi - kd / k0 + phi * k0 / kf
    P = ((1 - phi) * (1 - phi - kd / k0) * k0 + phi * k0 * kd / kf) / dd + 4 * g / 3
    Q = (1 - phi - kd / k0) * phi * k0 / dd
    R = phi * phi * k0 / dd
    a = r11 * r22 - r12 * r12
    b = P * r22 + R * r11 - 2 * Q * r12
    c = P * R - Q * Q
    s = np.sqrt(b * b - 4 * a * c)
    v1 = (b + s) / (2 * a)
    return np.sqrt(v1), np.sqrt(c / (a * v1)), np.sqrt(g / (rho - phi * rhof / al))


def t_biot_hf(*a):
    # the slow wave is the small root of a quadratic: the textbook form (b - s)/2a loses digits, all of them for a frame without stiffness
    v1, v2, vs = r_biot_hf(*a)
    e = 1e-14 * v1 ** 2
    return 0 * v1, e / np.maximum(np.where(np.isfinite(v2), v2, 0.0), np.sqrt(e)), 0 * vs


Spec("Fluid.Biot_HF", "C03", [N("Kdry", [2.6, 8.0, 15.0, 36.0], 0.0, 60), N("Gdry", [1.8, 6.0, 12.0], 0.0, 60), N("K0", [36.0, 45.0, 76.8], 10, 150), N("Kfl", [2.25, 0.1, 1.0], 0.005, 6),
                              N("rho0", [2.65, 2.71], 1.5, 6), N("rhofl", [1.0, 0.3, 1.1], 0.02, 2), N("phi", [0.2, 0.3, 0.1, 0.4], 0.003, 0.7), N("alpha", [2.0, 1.0, 3.0, 1.5], 1, 20)],
     r_biot_hf, where=lambda kd, g, k0, kf, rho0, rhof, phi, al: ok_frame(kd, k0, kf, phi) & (kf < k0), rtol=1e-8, tol=t_biot_hf,
     bases=[(2.6, 1.8, 36.0, 2.25, 2.65, 1.0, 0.3, 2.0), (8.0, 6.0, 45.0, 0.1, 2.71, 0.3, 0.2, 1.5), (15.0, 12.0, 76.8, 1.0, 2.65, 1.1, 0.1, 3.0)])


def r_gs_hf(kd, g, k0, kf, rho0, rhof, phi, al):
    rho = (1 - phi) * rho0 + phi * rhof
    be = 1 - kd / k0
    num = phi * rho / (rhof * al) + be * (be - 2 * phi / al)
    den = (be - phi) / k0 + phi / kf
    rb = rho - phi * rhof / al
    return np.sqrt((kd + 4 * g / 3 + num / den) / rb), np.sqrt(g / rb)


Spec("Fluid.Geertsma_Smit_HF", "C03", [N("Kdry", [2.6, 8.0, 15.0, 36.0], 0.0, 60), N("Gdry", [1.8, 6.0, 12.0], 0.0, 60), N("K0", [36.0, 45.0, 76.8], 10, 150), N("Kfl", [2.25, 0.1, 1.0], 0.005, 6),
                                       N("rho0", [2.65, 2.71], 1.5, 6), N("rhofl", [1.0, 0.3, 1.1], 0.02, 2), N("phi", [0.2, 0.3, 0.1, 0.4], 0.003, 0.7), N("alpha", [2.0, 1.0, 3.0, 1.5], 1, 20)],
     r_gs_hf, where=lambda kd, g, k0, kf, rho0, rhof, phi, al: ok_frame(kd, k0, kf, phi) & (kf < k0),
     bases=[(2.6, 1.8, 36.0, 2.25, 2.65, 1.0, 0.3, 2.0), (8.0, 6.0, 45.0, 0.1, 2.71, 0.3, 0.2, 1.5), (15.0, 12.0, 76.8, 1.0, 2.65, 1.1, 0.1, 3.0)])


def r_gs_lf(vp0, vpi, f, phi, rhof, kap, eta):
    fc = phi * eta / (2 * np.pi * rhof * kap)
    x = (fc / f) ** 2
    return np.sqrt((vpi ** 4 / x + vp0 ** 4) / (vpi ** 2 / x + vp0 ** 2))


Spec("Fluid.Geertsma_Smit_LF", "C03", [N("Vp0", [3.0, 2.0, 4000.0], 0.5, 6000), N("Vpinf", [3.3, 2.2, 4300.0], 0.5, 6000), N("freq", [10.0, 1.0, 1e3, 1e5], 1e-2, 1e7, log=True, lits=False), N("phi", PHI[:4], 0.01, 0.45),
                                       N("rhofl", [1000.0, 1.0, 300.0], 0.1, 1300, lits=False), N("kapa", [1e-12, 1e-13, 1e-3], 1e-15, 1, log=True, lits=False), N("eta", [1e-3, 1e-4, 1e-2], 1e-5, 1, log=True, lits=False)], r_gs_lf,
     bases=[(3.0, 3.3, 10.0, 0.2, 1000.0, 1e-12, 1e-3), (2.0, 2.2, 1e3, 0.35, 1.0, 1e-3, 1e-2), (4000.0, 4300.0, 1e5, 0.05, 1000.0, 1e-13, 1e-3)])


# ---- Mavko-Jizba -------------------------------------------------------------------------------
def r_mj(vph, vsh, vp, vs, k0, rd, rf, kf, phi):
    g = rd * vs ** 2 * 1e-6
    k = rd * vp ** 2 * 1e-6 - 4 * g / 3
    kh = rd * (vph ** 2 - 4 * vsh ** 2 / 3) * 1e-6
    ku = r_gassmann(kh, 1.0, k0, kf, phi)[0]
    gu = 15 / (15 / g - 4 * (1 / k - 1 / kh))
    rs = rd + phi * rf
    return ku, gu, 1e3 * np.sqrt((ku + 4 * gu / 3) / rs), 1e3 * np.sqrt(gu / rs)


Spec("Fluid.Mavko_Jizba", "C03", [N("Vp_hs", [5000.0, 4500.0, 5300.0], 3500, 5600, lits=False), N("Vs_hs", [3200.0, 2900.0, 3300.0], 2000, 3500, lits=False), N("Vpdry", [4000.0, 3500.0, 4600.0, 5000.0], 1500, 5600, lits=False),
                                  N("Vsdry", [2600.0, 2300.0, 2900.0], 500, 3400, lits=False), N("K0", [37.0, 45.0, 76.8], 15, 150), N("rhodry", [2.2, 2.0, 2.5], 1, 4), N("rhofl", [1.0, 0.8, 0.1], 0.0, 2),
                                  N("Kfl", [2.25, 0.1, 1.0], 1e-3, 6), N("phi", [0.15, 0.05, 0.25], 0.0, 0.6)], r_mj,
     where=lambda vph, vsh, vp, vs, k0, rd, rf, kf, phi: (rd * (vph ** 2 - 4 * vsh ** 2 / 3) * 1e-6 < k0) & ok_frame(rd * (vph ** 2 - 4 * vsh ** 2 / 3) * 1e-6, k0, kf, phi) & (vph ** 2 > 1.4 * vsh ** 2) & (vp ** 2 > 1.4 * vs ** 2),
     bases=[(4500.0, 2900.0, 4000.0, 2600.0, 37.0, 2.2, 1.0, 2.25, 0.15), (5000.0, 3200.0, 4600.0, 2900.0, 45.0, 2.2, 0.8, 0.1, 0.05), (4500.0, 2900.0, 3500.0, 2300.0, 76.8, 2.5, 0.1, 1.0, 0.25)])


# ---- White-Dutta-Ode ---------------------------------------------------------------------------
def r_wdo(kd, g, k0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, fr):
    w = 2 * np.pi * fr
    b = a * sg ** (-1 / 3)
    K1, K2 = r_gassmann(kd, 0.0, k0, f1, phi)[0], r_gassmann(kd, 0.0, k0, f2, phi)[0]
    be = 1 - kd / k0
    den = K2 * (3 * K1 + 4 * g) + 4 * g * (K1 - K2) * sg
    R1 = (K1 - kd) / be * (3 * K2 + 4 * g) / den
    R2 = (K2 - kd) / be * (3 * K1 + 4 * g) / den
    KA = [1 / (phi / f + (1 - phi) / k0 - kd / k0 ** 2) for f in (f1, f2)]
    KE = [(1 - f * (1 - K / k0) * be / (phi * K * (1 - f / k0))) * ka for f, K, ka in ((f1, K1, KA[0]), (f2, K2, KA[1]))]
    al1, al2 = np.sqrt(1j * w * e1 / (kap * KE[0])), np.sqrt(1j * w * e2 / (kap * KE[1]))
    # hyperbolic forms:  Z1 = (eta1 a/k) / (al1 a coth(al1 a) - 1)
    Z1 = e1 * a / kap / (al1 * a / np.tanh(al1 * a) - 1)
    t = np.tanh(al2 * (b - a))
    # Z2 = -(eta2 a/k) (al2 b - t... ) in tanh form
    num = al2 * b - t
    dn = al2 * b - al2 * a - t + al2 * a * al2 * b * t
    # (al b+1)+(al b-1)E with E=e^{2x}  ->  2e^x (al b cosh x - sinh x);  second bracket -> -2e^x(...)
    Z2 = e2 * a / kap * num / dn
    Q1, Q2 = be * KA[0] / K1, be * KA[1] / K2
    W = 3 * a ** 2 * (R1 - R2) * (Q2 - Q1) / (b ** 3 * 1j * w * (Z1 + Z2))
    Ki = den / ((3 * K1 + 4 * g) - 3 * (K1 - K2) * sg)
    Ks = Ki / (1 - Ki * W)
    M = Ks + 4 * g / 3
    rho = (1 - phi) * r0 + phi * (sg * rf1 + (1 - sg) * rf2)
    th = np.arctan(M.imag / M.real)
    Vp = np.sqrt(np.abs(M) / rho) / np.cos(th / 2)
    return Vp, w / Vp * np.tan(th / 2), Ks


def t_wdo(*a):
    """conditioning of the exponential form used by the model: 1-exp(-2z) and (z-1)+(z+1)exp(-2z) cancel for small z"""
    kd, g, k0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, aa, sg, fr = a
    w = 2 * np.pi * fr
    out = r_wdo(*a)
    b = aa * sg ** (-1 / 3)
    amp = 0.0
    for f, e, L in ((f1, e1, aa), (f2, e2, b - aa)):
        K = r_gassmann(kd, 0.0, k0, f, phi)[0]
        be = 1 - kd / k0
        ka = 1 / (phi / f + (1 - phi) / k0 - kd / k0 ** 2)
        ke = (1 - f * (1 - K / k0) * be / (phi * K * (1 - f / k0))) * ka
        z = np.abs(np.sqrt(1j * w * e / (kap * ke)) * np.minimum(L, aa))
        amp = amp + 1e-15 / np.minimum(z, 1) ** 4
    # the attenuation comes from the small imaginary part of the modulus: its error does not shrink with it
    return 1e2 * amp * np.abs(out[0]), 1e2 * amp * (np.abs(out[1]) + w / out[0]), 1e2 * amp * np.abs(out[2])


def _wdo_ok(kd, g, k0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, fr):
    w = 2 * np.pi * fr
    zl = np.sqrt(w * np.minimum(e1, e2) / (kap * 20)) * a
    return ok_frame(kd, k0, f1, phi) & ok_frame(kd, k0, f2, phi) & (kd < 0.99 * k0) & (f1 < k0) & (f2 < k0) & (zl > 2e-4) & (sg > 0) & (sg < 1)


Spec("Fluid.White_Dutta_Ode", "C03",
     [N("Kdry", [2.6, 8.0, 12.0], 0.1, 40, lits=False), N("Gdry", [1.8, 6.0, 10.0], 0.1, 40, lits=False), N("K0", [36.0, 45.0], 15, 120), N("phi", [0.3, 0.2, 0.12], 0.01, 0.6), N("rho0", [2.65, 2.71], 1.5, 5), N("rhofl1", [0.1, 0.3, 1.0], 0.01, 1.6),
      N("rhofl2", [1.0, 1.1, 0.1], 0.01, 1.6), N("Kfl1", [0.1, 0.3, 1.0], 0.005, 4), N("Kfl2", [2.25, 2.8, 0.1], 0.01, 4), N("eta1", [1e-5, 1e-4, 1e-3], 1e-5, 1e-1, log=True), N("eta2", [1e-3, 1e-4], 1e-5, 1e-1, log=True),
      N("kapa", [1e-3, 1e-2, 1e-6, 1e-12], 1e-16, 1e-1, log=True), N("a", [0.1, 0.5, 1.0], 0.02, 5), N("sg", [0.2, 0.5, 0.05, 0.8, 0.005, 0.995], 0.0005, 0.9995), N("freq", [10.0, 1.0, 100.0, 1e3, 1e5], 0.1, 1e7, log=True, lits=False)],
     r_wdo, where=_wdo_ok, rtol=1e-7, tol=t_wdo, noforms={"series"},
     bases=[(2.6, 1.8, 36.0, 0.3, 2.65, 0.1, 1.0, 0.1, 2.25, 1e-5, 1e-3, 1e-3, 0.1, 0.2, 100.0), (8.0, 6.0, 45.0, 0.2, 2.71, 0.3, 1.1, 0.3, 2.8, 1e-4, 1e-3, 1e-2, 0.5, 0.5, 10.0)])


# ---- Brown-Korringa ------------------------------------------------------------------------------
def iso_C(k, g):
    c = np.zeros((6, 6))
    c[:3, :3] = k - 2 * g / 3
    c[[0, 1, 2], [0, 1, 2]] = k + 4 * g / 3
    c[[3, 4, 5], [3, 4, 5]] = g
    return c


def _spd(seed_rows):
    return np.array(seed_rows, float)


def dry_matrices():
    """dry stiffnesses of every symmetry class, softer than the stiffest mineral used (K0>=30, G0>=30)"""
    ms = {}
    ms["iso"] = iso_C(12.0, 9.0)
    ms["iso_soft"] = iso_C(2.0, 1.5)
    c = iso_C(14.0, 10.0)
    c[2, 2] = 18.0
    c[0, 2] = c[2, 0] = c[1, 2] = c[2, 1] = 5.0
    c[3, 3] = c[4, 4] = 7.0
    ms["vti"] = c
    p = [2, 1, 0, 5, 4, 3]
    ms["hti"] = c[np.ix_(p, p)].copy()
    o = np.array([[24.0, 6.0, 5.0, 0, 0, 0], [6.0, 20.0, 4.0, 0, 0, 0], [5.0, 4.0, 16.0, 0, 0, 0], [0, 0, 0, 6.0, 0, 0], [0, 0, 0, 0, 7.0, 0], [0, 0, 0, 0, 0, 8.0]])
    ms["ortho"] = o
    t = o.copy()
    t[0, 3] = t[3, 0] = 0.9
    t[0, 4] = t[4, 0] = -0.7
    t[0, 5] = t[5, 0] = 0.5
    t[1, 3] = t[3, 1] = 0.3
    t[1, 4] = t[4, 1] = 0.8
    t[1, 5] = t[5, 1] = -0.6
    t[2, 3] = t[3, 2] = -0.4
    t[2, 4] = t[4, 2] = 0.2
    t[2, 5] = t[5, 2] = 0.7
    t[3, 4] = t[4, 3] = 0.25
    t[3, 5] = t[5, 3] = -0.35
    t[4, 5] = t[5, 4] = 0.45
    ms["tri"] = t
    m = o.copy()
    m[0, 4] = m[4, 0] = 1.1
    m[1, 4] = m[4, 1] = -0.8
    m[2, 4] = m[4, 2] = 0.6
    m[3, 5] = m[5, 3] = 0.5
    ms["mono"] = m
    # one coupling at a time, from negligible to strong, both signs; also negative axial couplings
    for base, c0 in (("iso", ms["iso"]), ("ortho", o)):
        for i in range(6):
            for j in range(i + 1, 6):
                for x in (1e-7, -3e-3, 0.05, -1.7):
                    if j < 3 and abs(x) < 1:
                        continue
                    c = c0.copy()
                    c[i, j] = c[j, i] = x
                    ms["%s-%d%d%g" % (base, i, j, x)] = c
    for f in (1e-3, 0.1, 3.0):
        ms["tri*%g" % f] = t * f if f < 1 else t + np.diag([20.0, 30, 25, 8, 9, 7])
    return ms


DRY = dry_matrices()


def r_bk_d2s(S, k0, g0, kf, phi):
    one = np.array([1.0, 1, 1, 0, 0, 0])
    S = np.asarray(S, float)
    s0 = one / (3 * k0)            # S0 @ 1 for an isotropic mineral
    v = S @ one - s0
    den = (one @ S @ one - 1 / k0) + (1 / kf - 1 / k0) * phi
    return (S - np.outer(v, v) / den,)


def r_bk_s2d(S, k0, g0, kf, phi):
    one = np.array([1.0, 1, 1, 0, 0, 0])
    S = np.asarray(S, float)
    v = S @ one - one / (3 * k0)
    den = (1 / kf - 1 / k0) * phi - (one @ S @ one - 1 / k0)
    return (S + np.outer(v, v) / den,)


def r_bk_sub(Cs, k0, g0, f1, f2, phi):
    S = np.linalg.inv(np.asarray(Cs, float))
    S2 = r_bk_d2s(r_bk_s2d(S, k0, g0, f1, phi)[0], k0, g0, f2, phi)[0]
    return np.linalg.inv(S2), S2


SDRY = [np.linalg.inv(c) for c in DRY.values()]
SSAT = [r_bk_d2s(s, 37.0, 44.0, 2.25, 0.2)[0] for s in SDRY]
CSAT = [np.linalg.inv(s) for s in SSAT]
Spec("Fluid.Brown_Korringa_dry2sat", "C02", [O("Sdry", SDRY), NS("K0", [37.0, 45.0, 76.8], 26, 200), NS("G0", [44.0, 32.0, 45.0, 1.0], 0.1, 120), NS("Kfl", [2.25, 0.02, 1.0, 2.8, 0.5], 1e-4, 20), NS("phi", [0.2, 0.05, 0.35, 0.3, 0.1, 0.0], 0.0, 0.9)],
     r_bk_d2s, elementwise=False, atol=1e-13, bases=[(SDRY[0], 37.0, 44.0, 2.25, 0.2), (SDRY[5], 45.0, 32.0, 0.02, 0.35)])
Spec("Fluid.Brown_Korringa_sat2dry", "C02", [O("Ssat", SSAT), NS("K0", [37.0, 38.0, 36.5, 60.0], 26, 120), NS("G0", [44.0, 32.0, 45.0, 1.0], 0.1, 120), NS("Kfl", [2.25, 2.2, 2.0, 1.0, 0.5, 0.02], 1e-4, 6), NS("phi", [0.2, 0.21, 0.3, 0.35, 0.05], 0.003, 0.9)],
     r_bk_s2d, elementwise=False, atol=1e-13, bases=[(SSAT[0], 37.0, 44.0, 2.25, 0.2), (SSAT[5], 37.0, 44.0, 1.0, 0.21)])
Spec("Fluid.Brown_Korringa_sub", "C02", [O("Csat", CSAT), NS("K0", [37.0, 38.0, 36.5, 60.0], 26, 120), NS("G0", [44.0, 32.0, 45.0, 1.0], 0.1, 120), NS("Kfl1", [2.25, 2.2, 2.0, 1.0, 0.5], 1e-4, 6), NS("Kfl2", [0.02, 2.25, 1.0, 2.8], 1e-4, 6), NS("phi", [0.2, 0.21, 0.3, 0.35, 0.05], 0.003, 0.9)],
     r_bk_sub, elementwise=False, rtol=1e-8, atol=1e-10, bases=[(CSAT[0], 37.0, 44.0, 2.25, 0.02, 0.2), (CSAT[5], 37.0, 44.0, 1.0, 2.25, 0.21)])


# ---- anisotropic squirt -------------------------------------------------------------------------
def r_squirt(S, Sh):
    S, Sh = np.asarray(S, float), np.asarray(Sh, float)
    d11, d12, d13, d33, d44 = S - Sh
    # expand Delta S to the TI tensor, Mukerji & Mavko (1994) in tensor index form
    aabb = 2 * d11 + 2 * d12 + 4 * d13 + d33
    n = (S - Sh) / aabb
    abab = 2 * n[0] + n[3] + 4 * n[4] + 2 * (2 * (n[0] - n[1]))
    al = (abab - 1) / 4
    T = 1 - 4 * al
    G11 = n[0] - 4 * al * (n[1] + n[2]) / T
    G33 = n[3] - 8 * al * n[2] / T
    G44 = n[4] / T - (n[0] + n[2]) / (4 * T) + (G11 + G33) / 4
    return (S - aabb * np.array([G11, n[1] / T, n[2] / T, G33, G44]),)


_SQ = [np.array(x) for x in ([0.06, -0.01, -0.012, 0.09, 0.15], [0.05, -0.008, -0.01, 0.07, 0.12], [0.08, -0.012, -0.011, 0.08, 0.18], [0.1, -0.02, -0.025, 0.16, 0.3])]
_SQH = [np.array(x) for x in ([0.03, -0.006, -0.006, 0.035, 0.07], [0.025, -0.004, -0.005, 0.03, 0.06], [0.028, -0.005, -0.004, 0.04, 0.08], [0.05999, -0.01, -0.01197, 0.0895, 0.1495], [0.05, -0.00801, -0.01, 0.0695, 0.12])]
_SQL = [list(map(float, x)) for x in _SQ[:2]]
Spec("Fluid.Squirt_anisotropic", "C02", [O("Sdry", _SQ + _SQL), O("Sdry_hp", _SQH + [_SQH[0].tolist()])], r_squirt, elementwise=False, bases=[(_SQ[0], _SQH[0])], atol=1e-13)


# ---- the same functions with arguments in SI units ------------------------------------------------
scaled("Fluid.Brie", "SI", Kw=1e9, Kgas=1e9)
scaled("Fluid.Gassmann", "SI", K_dry=1e9, G_dry=1e9, K_mat=1e9, Kf=1e9)
scaled("Fluid.Gassmann_sub", "SI", K0=1e9, Ksat1=1e9, Kfl1=1e9, Kfl2=1e9)
scaled("Fluid.Gassmann_approx", "SI", Msat1=1e9, M0=1e9, Mfl1=1e9, Mfl2=1e9)
scaled("Fluid.Gassmann_vels", "SI", Vp1=1e3, Vs1=1e3, rho1=1e3, rhofl1=1e3, Kfl1=1e9, rhofl2=1e3, Kfl2=1e9, K0=1e9)
scaled("Fluid.Biot", "SI", Kdry=1e9, Gdry=1e9, K0=1e9, Kfl=1e9, rho0=1e3, rhofl=1e3, kapa=1e-10, a=1e-5)
scaled("Fluid.Biot_HF", "SI", Kdry=1e9, Gdry=1e9, K0=1e9, Kfl=1e9, rho0=1e3, rhofl=1e3)
scaled("Fluid.Geertsma_Smit_HF", "SI", Kdry=1e9, Gdry=1e9, K0=1e9, Kfl=1e9, rho0=1e3, rhofl=1e3)
scaled("Fluid.White_Dutta_Ode", "SI", Kdry=1e9, Gdry=1e9, K0=1e9, rho0=1e3, rhofl1=1e3, rhofl2=1e3, Kfl1=1e9, Kfl2=1e9, kapa=1e-9)
