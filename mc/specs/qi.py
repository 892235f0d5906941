import numpy as np

from ..core import ND, C, N, NS, O, Spec, no
from .fluid import r_gassmann
from .gm import r_cc, r_const, r_muhs, r_soft


def hill(f, m):
    f, m = [np.asarray(x, float) for x in f], list(m)
    a = sum(x * y for x, y in zip(f, m))
    h = 1 / sum(x / y for x, y in zip(f, m))
    return (a + h) / 2


def _fr(vsh, phic, phi0):
    s = 1 / (1 - np.asarray(phi0, float))
    return vsh * s, (1 - phic - vsh) * s, (phic - phi0) * s


def r_mm(vsh, phic, phi0, msh, mg, mc):
    return hill(_fr(vsh, phic, phi0), (msh, mg, mc))


def r_dm(vsh, phic, phi0, dsh, dg, dc):
    a, b, c = _fr(vsh, phic, phi0)
    return a * dsh + b * dg + c * dc


PH0 = N("phi_0", [0.2, 0.3, 0.05, 0.0, 0.36, 0.4], 0, 0.7)
VSH = NS("vsh", [0.1, 0.0, 0.3, 0, 0.05], 0, 0.8)
PC = NS("phi_c", [0.4, 0.36, 0.45], 0.1, 0.7)
_q = dict(scalar_shape=(1,), noforms=no("phi_0", ND), where=lambda v, pc, p, *m: (p <= pc) & (v + pc < 0.95))
Spec("QI.matrix_modulus", "C19", [VSH, PC, PH0, NS("M_sh", [21.0, 7.0, 12.0], 0.1, 200), NS("M_g", [37.0, 44.0], 0.5, 300), NS("M_c", [37.0, 45.0, 60.0, 20.0], 0.5, 300)], r_mm, bases=[(0.1, 0.4, 0.2, 21.0, 37.0, 45.0), (0.0, 0.36, 0.05, 7.0, 44.0, 60.0)], **_q)
Spec("QI.den_matrix", "C19", [VSH, PC, PH0, NS("den_sh", [2.58, 2.3], 1.5, 3.5), NS("den_g", [2.65, 2.87], 1.5, 3.5), NS("den_c", [2.65, 2.71, 3.0], 1.5, 4)], r_dm, bases=[(0.1, 0.4, 0.2, 2.58, 2.65, 2.71), (0.0, 0.36, 0.05, 2.3, 2.87, 3.0)], **_q)


def vel(k, g, rho):
    with np.errstate(all="ignore"):
        return 1000 * np.sqrt((k + 4 * g / 3) / rho), 1000 * np.sqrt(g / rho)


def r_scr(dq, kq, gq, dsh, ksh, gsh, dc, kc, gc, db, kb, pb, pc, sig, vsh, scheme, f, cn):
    k0, g0, d0 = hill((vsh, 1 - vsh), (ksh, kq)), hill((vsh, 1 - vsh), (gsh, gq)), vsh * dsh + (1 - vsh) * dq
    phi = 1e-7 + (pc - 1e-7) * np.arange(100) / 99
    phi[-1] = pc
    rho = (1 - phi) * d0 + phi * db
    k1, g1 = r_soft(k0, g0, phi, pc, cn, sig, f)
    p1, s1 = vel(r_gassmann(k1, g1, k0, kb, phi)[0], g1, rho)
    k3, g3 = r_cc(k0, g0, kc, gc, phi, pc, cn, scheme)
    p3, s3 = vel(r_gassmann(k3, g3, r_mm(vsh, pc, phi, ksh, kq, kc), kb, phi)[0], g3, r_dm(vsh, pc, phi, dsh, dq, dc) * (1 - phi) + phi * db)
    k2, g2 = r_muhs(k0, g0, kc, gc, phi, pb, pc, cn, scheme)
    p2, s2 = vel(r_gassmann(k2, g2, k0, kb, phi)[0], g2, rho)
    lo, hi = phi < pb, phi > pb
    return phi, p1, np.where(hi, np.nan, p2), np.where(lo, np.nan, p3), s1, np.where(hi, np.nan, s2), np.where(lo, np.nan, s3)


def ns(name, vals, lo, hi):
    return NS(name, vals, lo, hi)


MIN = [ns("Dqz", [2.65, 2.87], 1, 6), ns("Kqz", [37.0, 36.6, 76.8], 12, 150), ns("Gqz", [44.0, 45.0, 32.0], 5, 120), ns("Dsh", [2.58, 2.3], 1, 6), ns("Ksh", [21.0, 12.0, 45.0], 5, 100), ns("Gsh", [7.0, 5.0, 30.0], 1, 80),
       ns("Dc", [2.65, 2.71], 1, 6), ns("Kc", [37.0, 60.0, 25.0], 8, 200), ns("Gc", [45.0, 25.0, 15.0], 3, 100), ns("Db", [1.0, 0.6], 0.0, 2), ns("Kb", [2.2, 0.5, 2.8, 0.01], 1e-3, 5)]
SB1 = (2.65, 37.0, 44.0, 2.58, 21.0, 7.0, 2.71, 37.0, 45.0, 1.0, 2.2)
SB2 = (2.87, 76.8, 32.0, 2.3, 12.0, 5.0, 2.65, 60.0, 25.0, 0.6, 0.5)
Spec("QI.screening", "C19", MIN + [ns("phib_p", [0.3, 0.25, 0.36, 0.35], 0.03, 0.65), PC, ns("sigma", [20.0, 5.0, 50, 10.0], 0.01, 300), VSH, C("scheme", [1, 2]), ns("f", [0.5, 0.0, 1.0], 0, 1), ns("Cn", [8.6, 9, 6.0], 2, 20)],
     r_scr, elementwise=False, nan_sig=True, rtol=1e-7, atol=1e-6, where=lambda *a: (a[11] <= a[12] - 0.005) & (a[14] + a[12] < 0.9), bases=[SB1 + (0.3, 0.4, 20.0, 0.1, 1, 0.5, 8.6), SB2 + (0.25, 0.36, 5.0, 0.0, 2, 1.0, 9)], max_scalar=9000)


def r_cst(pb, k0, d0, g0, phi, pc, cn, kc, gc, db, kb, scheme, vsh, dsh, dq, dc):
    phi = np.asarray(phi, float)
    k, g = r_const(pb, k0, g0, kc, gc, phi, pc, cn, scheme)
    d = r_dm(vsh, pc, pb, dsh, dq, dc)
    p, s = vel(r_gassmann(k, g, k0, kb, phi)[0], g, (1 - phi) * d + phi * db)
    return np.where(phi > pb, np.nan, p)[()], np.where(phi > pb, np.nan, s)[()]


PHI = N("phi", [0.2, 0.3, 0.05, 0.35, 0.01, 0.1], 1e-4, 0.65)
Spec("QI.cst_vels", "C19", [ns("phi_b", [0.37, 0.3, 0.35, 0.25], 0.03, 0.65), ns("K0", [37.0, 30.0], 8, 150), ns("D0", [2.65, 2.6], 1, 6), ns("G0", [44.0, 30.0], 3, 120), PHI, PC, ns("Cn", [8.6, 9, 6.0], 2, 20), ns("Kc", [37.0, 60.0], 8, 200), ns("Gc", [45.0, 25.0], 3, 100), ns("Db", [1.0, 0.6], 0.0, 2), ns("Kb", [2.2, 0.5, 0.01], 1e-3, 5),
                            C("scheme", [1, 2]), VSH, ns("Dsh", [2.58, 2.3], 1.5, 3.5), ns("Dqz", [2.65, 2.87], 2, 4), ns("Dc", [2.65, 2.71], 2, 4)], r_cst, max_scalar=3000, sweep_n=21, bulk=0.1, nan_sig=True, rtol=1e-7, atol=1e-6, scalar_shape=(1,),
     noforms=no("phi", ND) | no("phi", "0d nan0 nanmid nanlast"), where=lambda *a: (a[0] <= a[5] - 0.005) & (a[12] + a[5] < 0.9) & (a[4] <= a[5]),
     bases=[(0.37, 37.0, 2.65, 44.0, 0.2, 0.4, 8.6, 37.0, 45.0, 1.0, 2.2, 1, 0.1, 2.58, 2.65, 2.71), (0.3, 30.0, 2.6, 30.0, 0.05, 0.36, 9, 60.0, 25.0, 0.6, 0.5, 2, 0.0, 2.3, 2.87, 2.65)])


def r_cal(dq, kq, gq, dsh, ksh, gsh, dc, kc, gc, db, kb, pb, pc, vsh, phi, scheme):
    k0, g0, d0 = hill((vsh, 1 - vsh), (ksh, kq)), hill((vsh, 1 - vsh), (gsh, gq)), vsh * dsh + (1 - vsh) * dq
    cn = ((14 * pc - 34) * pc) + 20
    k, g = r_const(pb, k0, g0, kc, gc, phi, pc, cn, scheme)
    return vel(r_gassmann(k, g, k0, kb, phi)[0], g, (1 - phi) * d0 + phi * db)


Spec("QI.cal_v_const", "C19", MIN + [ns("phi_b", [0.37, 0.3, 0.35, 0.25], 0.03, 0.65), PC, VSH, PHI, C("scheme", [1, 2])], r_cal, max_scalar=6000, sweep_n=41, bulk=0.2, rtol=1e-7, atol=1e-6, where=lambda *a: (a[11] <= a[12] - 0.005) & (a[14] <= a[11]),
     bases=[SB1 + (0.37, 0.4, 0.1, 0.2, 1), SB2 + (0.3, 0.36, 0.0, 0.05, 2)])
_D = [np.array([1.0, 2.0, 4.0]), np.array([[0.0, 1.0], [3.0, 0.5]]), np.array([5.0]), np.linspace(0, 1, 7).reshape(7, 1), np.array([3.0, 1.0, 3.0]), np.arange(12.0).reshape(3, 4)[::-1]]
Spec("QI.normalize", "C20", [O("density", _D, elem=(0.0, 50.0, [0.0, 1e-9, 0.5, 50.0]))], lambda d: d / np.max(d), elementwise=False, atol=1e-12, bases=[(_D[1],)])
