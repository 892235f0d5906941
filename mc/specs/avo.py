import numpy as np

from ..core import ND, C, N, NS, O, Spec, no
from .aniso import HTIS
from .elastic import hti, iso

VP = [3000.0, 2500.0, 3500.0, 4000.0, 2800.0]
VS = [1500.0, 1200.0, 1900.0, 2300.0, 1000.0]
RH = [2300.0, 2100.0, 2500.0, 2.4, 2200.0]
TH = [20.0, 0.0, 10.0, 30.0, 40.0, 55.0, -15.0, 5]


def r_ar(th, vp1, vp2, vs1, vs2, d1, d2):
    t = th * (np.pi / 180)
    s, c = np.sin(t), np.cos(t)
    rp, rs, rd = 2 * (vp2 - vp1) / (vp1 + vp2), 2 * (vs2 - vs1) / (vs1 + vs2), 2 * (d2 - d1) / (d1 + d2)
    a, b = (vp1 + vp2) / 2, (vs1 + vs2) / 2
    k = (b / a) ** 2
    r0 = (rp + rd) / 2
    m = -4 * k * rs - 2 * k * rd
    n = rp / 2
    rpp = r0 + m * s * s + n * (s / c) ** 2
    p = s / vp1
    cs = np.sqrt(1 - (p * vs1) ** 2)
    q = c / a * cs / b
    rps = -p * a / (2 * cs) * ((1 - 2 * b * b * p * p + 2 * b * b * q) * rd - (4 * p * p * b * b - 4 * b * b * q) * rs)
    sh = np.broadcast(vp1, vp2, d1, d2)
    return rpp, rps, np.broadcast_to(r0, sh.shape), np.broadcast_to(m + n, np.broadcast(vp1, vp2, vs1, vs2, d1, d2).shape)


Spec("AVO.Aki_Richards", "C13", [N("theta", TH + [80.0], -88, 88), NS("vp1", VP, 300, 9000), NS("vp2", [3200.0, 2500.0, 3000.0, 4200.0], 300, 9000), NS("vs1", VS, 10, 5000), NS("vs2", [1700.0, 1500.0, 1100.0, 2400.0], 10, 5000),
                                 NS("den1", RH, 1.5, 3000), NS("den2", [2400.0, 2300.0, 2000.0, 2.5], 1.5, 3000)], r_ar, where=lambda th, vp1, vp2, vs1, vs2, d1, d2: (vs1 < 0.99 * vp1) & (np.abs(d1 / d2 - 1) < 5e3), atol=1e-13)


def r_ar_layers(th, vp1, vp2, vs1, vs2, d1, d2):
    c = [np.asarray(x, float)[:, None] for x in (vp1, vp2, vs1, vs2, d1, d2)]
    o = r_ar(np.asarray(th, float), *c)
    return o


def _lay(seq, n, k):
    s = [seq[(i * k + k) % len(seq)] for i in range(n)]
    return np.array(s, float)


_SEQ = {"vp1": VP, "vp2": [3200.0, 2500.0, 3000.0, 4200.0, 3700.0], "vs1": VS, "vs2": [1700.0, 1500.0, 1100.0, 2400.0, 1900.0], "den1": [2300.0, 2100.0, 2500.0, 2450.0, 2200.0], "den2": [2400.0, 2300.0, 2000.0, 2650.0, 2350.0]}
_LE = {"vp1": (2600.0, 9000.0, [2600.0, 6000.0]), "vp2": (500.0, 9000.0, [500.0, 6000.0]), "vs1": (5.0, 2300.0, [5.0, 300.0]), "vs2": (5.0, 6000.0, [5.0, 4000.0]), "den1": (100.0, 6000.0, [100.0, 1000.0, 5000.0]), "den2": (100.0, 6000.0, [100.0, 1000.0, 5000.0])}
_LAY = {k: [_lay(v, n, j) for n in (1, 2, 3, 5) for j in (1, 2)] for k, v in _SEQ.items()}
_THO = [20.0, np.array([0.0, 10.0, 30.0]), np.array([40.0, 5.0, 25.0, 15.0, 0.0]), np.arange(0.0, 45.0, 5.0), np.array([12.0]), np.array([10, 20, 30]), 0.0]


def _lens(*cols):
    return np.array([len({np.size(x) for x in r}) == 1 for r in zip(*cols)])


Spec("AVO.Aki_Richards#layers", "C13", [O("theta", _THO)] + [O(k, v, elem=_LE[k]) for k, v in _LAY.items()], r_ar_layers, elementwise=False, atol=1e-13, where=lambda th, *c: _lens(*c),
     bases=[tuple([_THO[1]] + [_LAY[k][i] for k in _LAY]) for i in range(8)])


def _zoep(vp1, vs1, rho1, vp2, vs2, rho2, theta, p_wrong, h_wrong):
    t1 = np.deg2rad(theta)
    p = np.sin(theta if p_wrong else t1) / vp1

    def ct(v):
        return np.sqrt(1 - (p * v) ** 2)
    ca, cb = (np.cos(t1)) / vp1, ct(vp2) / vp2
    da, db = ct(vs1) / vs1, ct(vs2) / vs2
    s1, s2 = (p * vs1) ** 2, (p * vs2) ** 2
    a = rho2 * (1 - 2 * s2) - rho1 * (1 - 2 * s1)
    b = rho2 * (1 - 2 * s2) + 2 * rho1 * s1
    c = rho1 * (1 - 2 * s1) + 2 * rho2 * s2
    d = 2 * (rho2 * vs2 ** 2 - rho1 * vs1 ** 2)
    E, F = b * ca + c * cb, b * da + c * db
    G, H = a - d * ca * db, a - d * cb * (db if h_wrong else da)
    D = E * F + G * H * p * p
    rpp = ((b * ca - c * cb) * F - (a + d * ca * db) * H * p * p) / D
    rps = -2 * ca * (a * b + c * d * cb * db) * p * vp1 / (vs1 * D)
    return rpp, rps


def r_zoep_matrix(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    """exact: boundary conditions solved as a 4x4 system (used to validate the closed form, tools/selftest)"""
    t1 = np.deg2rad(theta)
    p = np.sin(t1) / vp1
    t2, f1, f2 = np.arcsin(p * vp2), np.arcsin(p * vs1), np.arcsin(p * vs2)
    M = np.array([[-np.sin(t1), -np.cos(f1), np.sin(t2), np.cos(f2)], [np.cos(t1), -np.sin(f1), np.cos(t2), -np.sin(f2)],
                  [2 * rho1 * vs1 * np.sin(f1) * np.cos(t1), rho1 * vs1 * (1 - 2 * np.sin(f1) ** 2), 2 * rho2 * vs2 * np.sin(f2) * np.cos(t2), rho2 * vs2 * (1 - 2 * np.sin(f2) ** 2)],
                  [-rho1 * vp1 * (1 - 2 * np.sin(f1) ** 2), rho1 * vs1 * np.sin(2 * f1), rho2 * vp2 * (1 - 2 * np.sin(f2) ** 2), -rho2 * vs2 * np.sin(2 * f2)]])
    N_ = np.array([np.sin(t1), np.cos(t1), 2 * rho1 * vs1 * np.sin(f1) * np.cos(t1), rho1 * vp1 * (1 - 2 * np.sin(f1) ** 2)])
    x = np.linalg.solve(M, N_)
    return x[0], x[1]


def _zk(pw, hw):
    return lambda *a: _zoep(*a, pw, hw)


Spec("AVO.zoeppritz", "C13", [N("vp1", VP, 300, 9000), N("vs1", VS, 10, 5000), N("rho1", RH[:3] + [2200.0], 100, 5000), N("vp2", [3200.0, 2500.0, 3000.0, 4200.0], 300, 9000), N("vs2", [1700.0, 1500.0, 1100.0, 2400.0], 10, 5000),
                              N("rho2", [2400.0, 2300.0, 2000.0, 2600.0], 100, 5000), N("theta", TH + [80.0], -88, 88)], _zk(False, False),
     where=lambda vp1, vs1, r1, vp2, vs2, r2, th: (vs1 < 0.85 * vp1) & (vs2 < 0.85 * vp2),
     known=[("KF-zoeppritz", _zk(True, True)), ("KF-zoeppritz", _zk(False, True)), ("KF-zoeppritz", _zk(True, False))], rtol=1e-7, atol=1e-9)


def r_abe(vp1, vs1, d1, vp2, vs2, d2):
    rp, rs, rd = 2 * (vp2 - vp1) / (vp1 + vp2), 2 * (vs2 - vs1) / (vs1 + vs2), 2 * (d2 - d1) / (d1 + d2)
    r0 = (rp + rd) / 2

    def nu(vp, vs):
        x = (vp / vs) ** 2
        return (x - 2) / (2 * x - 2)
    n1, n2 = nu(vp1, vs1), nu(vp2, vs2)
    na, dn = (n1 + n2) / 2, n2 - n1
    # (Ax*Ro) with Bx = rp/(rp+rd):   Ax*Ro = rp/2 - 2 (rp + rd/2) (1-2na)/(1-na)
    b1 = rp / 2 - 2 * (rp + rd / 2) * (1 - 2 * na) / (1 - na) + dn / (1 - na) ** 2
    k = (vs1 + vs2) / (vp1 + vp2)
    b2 = rp / 2 - 2 * k * k * (rd + 2 * rs)
    e1 = -rd / 2 - k * (rd + 2 * rs) + k ** 3 * (rd / 2 + rs)
    e2 = -2 * vs1 / vp1 * (rd * (0.5 + 0.25 / k) + rs)
    sh = np.broadcast(vp1, vp2, d1, d2)
    return np.broadcast_to(r0, sh.shape), b1, b2, e1, e2


def t_abe(vp1, vs1, d1, vp2, vs2, d2):
    rp, rd = 2 * (vp2 - vp1) / (vp1 + vp2), 2 * (d2 - d1) / (d1 + d2)
    e = 1e-12 / np.maximum(np.abs(rp + rd), 1e-12)
    z = 0.0 * r_abe(vp1, vs1, d1, vp2, vs2, d2)[1]
    return (0.0, z + e, z, z, z)


def _abe_ok(vp1, vs1, d1, vp2, vs2, d2):
    rp, rd = 2 * (vp2 - vp1) / (vp1 + vp2), 2 * (d2 - d1) / (d1 + d2)
    return (vs1 < 0.93 * vp1) & (vs2 < 0.93 * vp2) & (np.abs(rp + rd) > 1e-9)


_RA = [2300.0, 2100.0, 2500.0, 2200.0]
Spec("AVO.AVO_abe", "C13", [N("vp1", VP, 300, 9000), N("vs1", VS, 10, 5000), N("d1", _RA, 1, 5000), N("vp2", [3200.0, 2500.0, 3000.0, 4200.0], 300, 9000), N("vs2", [1700.0, 1500.0, 1100.0, 2400.0], 10, 5000),
                            N("d2", [2400.0, 2300.0, 2000.0, 2600.0], 1, 5000)], r_abe, where=_abe_ok, rtol=1e-9, atol=1e-13, tol=t_abe)


def _ei(Vp, Vs, rho, theta, SP, norm, mp, ms, mr):
    t = np.deg2rad(theta)
    s = np.sin(t)
    s2 = s * s
    ss = s * Vs / Vp
    q = ss * ss
    ts = np.arcsin(ss)
    ipn, isn = (mp * mr, ms * mr) if norm else (1.0, 1.0)
    if norm:
        Vp, Vs, rho = Vp / mp, Vs / ms, rho / mr
    L = np.log
    pp = ipn * np.exp((1 / np.cos(t) ** 2) * L(Vp) - 8 * SP ** 2 * s2 * L(Vs) + (1 - 4 * SP ** 2 * s2) * L(rho))
    r = np.sqrt(1 - SP ** 2 * s2)
    psv = ipn * np.exp(s / r * (4 * SP ** 2 * s2 - 4 * SP * np.cos(t) * r) * L(Vs) - s / r * (1 - 2 * SP ** 2 * s2 + 2 * SP * np.cos(t) * r) * L(rho))
    r = np.sqrt(1 - q / SP ** 2)
    svp = isn * np.exp(ss / r * (4 * q - 4 * SP * np.cos(ts) * r) * L(Vs) - ss / r * (1 - 2 * q + 2 * SP * np.cos(ts) * r) * L(rho))
    svsv = isn * np.exp((8 * q - 1 / (1 - q)) * L(Vs) + (4 * q - 1) * L(rho))
    shsh = isn * np.exp((q / (1 - q) - 1) * L(Vs) - L(rho))
    return pp, psv, svp, svsv, shsh


def r_ei(Vp, Vs, rho, theta, SP, norm=True):
    return _ei(Vp, Vs, rho, theta, SP, norm, Vp, Vs, rho)


Spec("AVO.EI_ref", "C13", [NS("Vp", [3000.0, 2500.0, 4000.0, 3.0], 2, 6000), NS("Vs", [1500.0, 1200.0, 2300.0, 1.5], 0.5, 3000), NS("rho", [2300.0, 2.4, 2500.0], 1.5, 3000), N("theta", [20.0, 0.0, 10.0, 30.0, 45.0, 5, -15.0, 70.0], -80, 80),
                           NS("SP", [0.5, 0.55, 0.45, 0.6, 0.3], 0.1, 1.0), C("norm", [True, False])], r_ei,
     where=lambda Vp, Vs, rho, th, sp, nm: (Vs < 0.95 * Vp) & (Vs > 0.02 * Vp) & (sp * np.abs(np.sin(np.deg2rad(th))) < 0.98) & (np.abs(np.sin(np.deg2rad(th))) * Vs / Vp < 0.95 * sp), rtol=1e-8,
     bases=[(3000.0, 1500.0, 2300.0, 20.0, 0.5, True), (3.0, 1.5, 2.4, 30.0, 0.55, False), (4000.0, 2300.0, 2500.0, 10.0, 0.6, False)])


def r_ei_layers(Vp, Vs, rho, theta, SP, norm=True):
    Vp, Vs, rho = (np.asarray(x, float) for x in (Vp, Vs, rho))
    return _ei(Vp[:, None], Vs[:, None], rho[:, None], np.asarray(theta, float), SP, norm, Vp.mean(), Vs.mean(), rho.mean())


_EV = [_lay([3000.0, 2500.0, 3500.0, 2800.0], n, j) for n in (1, 2, 3, 5) for j in (1, 3)]
_ES = [_lay([1500.0, 1200.0, 1700.0, 1000.0], n, j) for n in (1, 2, 3, 5) for j in (1, 3)]
_ER = [_lay([2300.0, 2100.0, 2500.0, 2450.0], n, j) for n in (1, 2, 3, 5) for j in (1, 3)]
_ET = [np.array([0.0, 10.0, 30.0]), np.array([25.0, 5.0, 15.0, 0.0, 35.0]), np.array([12.0]), 20.0, np.array([10, 20]), np.arange(0.0, 41.0, 8.0)]
Spec("AVO.EI_ref#layers", "C13", [O("Vp", _EV, elem=(2400.0, 9000.0, [2400.0, 6000.0])), O("Vs", _ES, elem=(30.0, 1800.0, [30.0, 300.0])), O("rho", _ER, elem=(100.0, 6000.0, [100.0, 1000.0, 5000.0])), O("theta", _ET), NS("SP", [0.5, 0.55], 0.5, 0.65), C("norm", [True, False])], r_ei_layers, elementwise=False, rtol=1e-8,
     where=lambda a, b, c, t, s, n: _lens(a, b, c), bases=[(_EV[i], _ES[i], _ER[i], _ET[0], 0.5, True) for i in range(8)])
Spec("AVO.EI_ref#default", "C13", [O("Vp", _EV, elem=(2400.0, 9000.0, [2400.0, 6000.0])), O("Vs", _ES, elem=(30.0, 1800.0, [30.0, 300.0])), O("rho", _ER, elem=(100.0, 6000.0, [100.0, 1000.0, 5000.0])), O("theta", _ET), NS("SP", [0.5, 0.55], 0.5, 0.65)], r_ei_layers, elementwise=False, rtol=1e-8,
     where=lambda a, b, c, t, s: _lens(a, b, c), bases=[(_EV[4], _ES[4], _ER[4], _ET[0], 0.5), (3000.0 * np.ones(2), 1500.0 * np.ones(2), 2300.0 * np.ones(2), _ET[1], 0.55)])


# ---- Rueger (C14) -------------------------------------------------------------------------------
def r_hti(D1, D2, C1, C2, theta, azimuth):
    th, az = np.deg2rad(np.atleast_1d(np.asarray(theta, float)).ravel()), np.deg2rad(np.atleast_1d(np.asarray(azimuth, float)).ravel())
    th, az = th[None, :], az[:, None]

    def par(c, d):
        a, b = np.sqrt(c[2, 2] / d), np.sqrt(c[3, 3] / d)
        e = c[0, 0] / c[2, 2] / 2 - 0.5
        de = (c[0, 2] + c[2, 2]) * (c[0, 2] + 2 * c[4, 4] - c[2, 2]) / (2 * c[2, 2] * (c[2, 2] - c[4, 4]))
        return a, b, d * a, c[3, 3], e, de, c[3, 3] / c[5, 5] / 2 - 0.5
    p1, p2 = par(np.asarray(C1, float), D1), par(np.asarray(C2, float), D2)
    rel = [2 * (y - x) / (x + y) for x, y in zip(p1[:4], p2[:4])]
    f = (2 * (p1[1] + p2[1]) / (p1[0] + p2[0])) ** 2
    de, dd, dg = p2[4] - p1[4], p2[5] - p1[5], p2[6] - p1[6]
    c2, s2, t2 = np.cos(az) ** 2, np.sin(th) ** 2, np.tan(th) ** 2
    return rel[2] / 2 + 0.5 * (rel[0] - f * rel[3] + (dd + 2 * f * dg) * c2) * s2 + 0.5 * (rel[0] + de * c2 ** 2 + dd * (1 - c2) * c2) * s2 * t2


_T = [np.array([0.0, 10.0, 25.0]), np.array([30.0, 5.0, 40.0, 15.0, 0.0]), np.array([20.0]), 25.0, np.arange(0, 50, 10), 0.0, np.array([-10.0, 10.0]), np.array([60.0, 45.0, 80.0])]
_A = [np.array([0.0, 30.0, 90.0, 45.0]), np.array([60.0, 10.0]), np.array([45.0]), 0.0, 30.0, np.arange(0, 361, 45), np.array([-30.0, 30.0, 150.0]), np.array([190.0, 225.0, 300.0, 420.0, -200.0, 800.0]), 270.0]
Spec("AVO.AVO_HTI", "C14", [NS("D1", [2.4, 2.2, 2.6], 0.1, 6), NS("D2", [2.5, 2.3, 2.4], 0.1, 6), O("C1", HTIS), O("C2", HTIS[::-1]), O("theta", _T), O("azimuth", _A)], r_hti, elementwise=False, atol=1e-12,
     bases=[(2.4, 2.5, HTIS[0], HTIS[1], _T[0], _A[0]), (2.2, 2.6, HTIS[3], HTIS[4], _T[1], _A[1]), (2.5, 2.5, HTIS[2], HTIS[2], _T[0], _A[2])], t_quick=3)


def r_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, th):
    s2, t2 = np.sin(np.deg2rad(th)) ** 2, np.tan(np.deg2rad(th)) ** 2
    z = 2 * (r2 * a2 - r1 * a1) / (r1 * a1 + r2 * a2)
    ra = 2 * (a2 - a1) / (a1 + a2)
    m1, m2 = r1 * b1 ** 2, r2 * b2 ** 2
    rg = 2 * (m2 - m1) / (m1 + m2)
    f = 4 * ((b1 + b2) / (a1 + a2)) ** 2
    xz = z / 2 + 0.5 * (ra - f * rg + 2 * f * (g2 - g1) + d22 - d12) * s2 + 0.5 * (ra + e22 - e12) * s2 * t2
    yz = z / 2 + 0.5 * (ra - f * rg + d21 - d11) * s2 + 0.5 * (ra + e21 - e11) * s2 * t2
    A = np.broadcast(a1, b1, r1, a2, b2, r2, th)
    return xz, yz


def _an(n, v):
    return N(n, v, -0.5, 1.0)


Spec("AVO.AVO_ortho", "C14", [N("a1", [3.0, 2.6, 4.0], 0.3, 9), N("b1", [1.5, 1.2, 2.2], 0.01, 5), _an("e11", [0.1, 0.0, -0.05]), _an("d11", [0.05, 0.0, -0.1]), _an("e12", [0.15, 0.0, 0.02]), _an("d12", [-0.07, 0.0, 0.12]),
                              _an("g1", [0.08, 0.0, -0.04]), N("rho1", [2.3, 2.1, 2.5], 1.5, 3), N("a2", [3.4, 2.6, 4.2], 0.3, 9), N("b2", [1.8, 1.3, 2.4], 0.01, 5), _an("e21", [0.2, 0.0, 0.03]), _an("d21", [0.09, 0.0, -0.02]),
                              _an("e22", [-0.12, 0.0, 0.06]), _an("d22", [0.11, 0.0, 0.04]), _an("g2", [0.13, 0.0, 0.01]), N("rho2", [2.45, 2.2, 2.6], 0.1, 6), N("the", [20.0, 0.0, 10.0, 35.0, 50.0, -25.0, 5, 70.0], -88, 88)], r_ortho, atol=1e-13, max_scalar=20000)
