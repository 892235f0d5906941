import numpy as np

from ..core import ND, C, N, NS, O, Spec, no

P = [30.0, 5.0, 50.0, 100.0, 0.5, 80.0, 15]
T = [60.0, 20.0, 100.0, 150.0, 40.0, 5]
GG = [0.6, 0.8, 1.2, 1.5349]


def zfac(pr, tr):
    """Batzle-Wang eq. 10a-c"""
    return (0.03 + 0.00527 * (3.5 - tr) ** 3) * pr + (0.642 * tr - 0.007 * tr ** 4 - 0.52) + 0.109 * (3.85 - tr) ** 2 * np.exp(-(0.45 + 8 * (0.56 - 1 / tr) ** 2) * pr ** 1.2 / tr)


def r_dz(pr, tr):
    # derivative of the Z factor by the complex step method: independent of any hand-written derivative
    h = 1e-30
    return zfac(np.asarray(pr, float) + 1j * h, np.asarray(tr, float)).imag / h


def _gas(p, ta, pr, tr, g):
    z = zfac(pr, tr)
    rho = 28.8 * g * p / (z * 8.3145 * ta)
    ga = 0.85 + 5.6 / (pr + 2) + 27.1 / (pr + 3.5) ** 2 - 8.7 * np.exp(-0.65 * (pr + 1))
    return rho, 1e-3 * p * ga * z / (z - pr * r_dz(pr, tr))


def r_ppt(p, t, g):
    ta = t + 273.15
    return ta, p / (4.892 - 0.4048 * g), ta / (94.72 + 170.75 * g)


def r_gas(p, t, g):
    ta, pr, tr = r_ppt(p, t, g)
    return _gas(p, ta, pr, tr, g)


def r_co2(p, t, g):
    ta = t + 273.15
    return _gas(p, ta, p / 7.4, ta / 304.6, g)


def r_oil(p, t, d):
    rp = d + (0.00277 * p - 1.71e-7 * p ** 3) * (d - 1.15) ** 2 + 3.49e-4 * p
    rho = rp / (0.972 + 3.81e-4 * np.power(t + 17.78, 1.175))
    v = 2096 * np.sqrt(d / (2.6 - d)) - 3.7 * t + 4.64 * p + 0.0115 * (4.12 * np.sqrt(1.08 / d - 1) - 1) * t * p
    return rho, rho * v * v * 1e-6


def r_go(p, t, d, g, rg):
    b = 0.972 + 0.00038 * np.power(2.4 * rg * np.sqrt(g / d) + t + 17.8, 1.175)
    rp = d / ((1 + 0.001 * rg) * b)
    v = 2096 * np.sqrt(rp / (2.6 - rp)) - 3.7 * t + 4.64 * p + 0.0115 * (4.12 * np.sqrt(1.08 / rp - 1) - 1) * t * p
    rho = (d + 0.0012 * g * rg) / b
    return np.broadcast_to(rho, np.broadcast(t, d, g, rg).shape), rho * v * v * 1e-6


def r_go_max(p, t, d, g):
    rg = 0.02123 * g * (p * np.exp(4.072 / d - 0.00377 * t)) ** 1.205
    return r_go(p, t, d, g, rg)


Spec("BW.dz_dp", "C15", [N("P_pr", [3.0, 1.0, 8.0, 15.0, 0.1], 1e-4, 40), N("T_pr", [1.5, 1.1, 2.0, 1.8, 0.9], 0.7, 4)], r_dz, atol=1e-12)
Spec("BW.pseudo_p_t", "C15", [N("P", P, 0.05, 200), N("T", T + [-10.0], -25, 300), N("G", GG, 0.3, 2.5)], r_ppt, noforms=set())


def _cond(pr, tr):
    """the Z-factor correlation is usable: positive Z and a bulk-modulus denominator away from zero"""
    with np.errstate(all="ignore"):
        z = zfac(pr, tr)
        return (z > 0.03) & (1 - pr * r_dz(pr, tr) / z > 0.03)


def _gok(p, t, g):
    return _cond(*r_ppt(p, t, g)[1:])


def _cok(p, t, g=None):
    return _cond(p / 7.4, (t + 273.15) / 304.6)


Spec("BW.rho_K_gas", "C15", [N("P", P, 0.05, 200), N("T", T + [-10.0], -25, 300), N("G", GG, 0.3, 2.5)], r_gas, where=_gok, rtol=1e-9)
Spec("BW.rho_K_co2", "C15", [N("P", P, 0.05, 200), N("T", T + [-10.0], -25, 300), N("G", [1.5349, 1.5, 1.6], 0.5, 1.8)], r_co2, where=_cok, rtol=1e-9, bases=[(30.0, 60.0, 1.5349), (15.0, 100.0, 1.5), (8.0, 40.0, 1.6)])
Spec("BW.rho_K_oil", "C15", [N("P", P + [0.0], 0.0, 200), N("T", T + [-10.0], -17.5, 300), N("den", [0.85, 0.75, 0.95, 1.0, 0.88], 0.5, 1.075)], r_oil)
Spec("BW.rho_K_go", "C15", [N("P", P + [0.0], 0.0, 200), N("T", T + [-10.0], -17.0, 300), N("den", [0.85, 0.75, 0.95, 0.88], 0.55, 1.05), N("G", [0.6, 0.8, 1.2], 0.3, 2.0), NS("Rg", [100.0, 0.0, 50.0, 200.0, 10, 0.5], 0.0, 600)], r_go)
Spec("BW.rho_K_go#max", "C15", [N("P", [20.0, 5.0, 30.0, 15, 0.0], 0, 60), N("T", T + [-10.0], -17, 300), N("den", [0.85, 0.8, 0.95, 0.88], 0.7, 1.05), N("G", [0.6, 0.8, 1.0], 0.3, 2.0)], r_go_max, call=None)

_W = np.array([1402.85, 1.524, 3.437e-3, -1.197e-5, 4.871, -0.0111, 1.739e-4, -1.628e-6, -0.04783, 2.747e-4, -2.135e-6, 1.237e-8, 1.487e-4, -6.503e-7, -1.455e-8, 1.327e-10, -2.197e-7, 7.987e-10, 5.230e-11, -4.614e-13]).reshape(5, 4)


def r_vw(t, p):
    o = 0.0
    for i in range(4, -1, -1):          # Horner in T, then in P
        q = 0.0
        for j in range(3, -1, -1):
            q = q * p + _W[i, j]
        o = o * t + q
    return o


def r_water(t, p):
    rho = 1 + 1e-6 * (t * (-80 + t * (-3.3 + 0.00175 * t)) + p * (489 + t * (-2 + t * (0.016 - 1.3e-5 * t))) - p * p * (0.333 + 0.002 * t))
    return rho, rho * r_vw(t, p) ** 2 * 1e-6


def _vb(t, p, s, k2):
    return r_vw(t, p) + s * (1170 - 9.6 * t + 0.055 * t ** 2 - 8.5e-5 * t ** 3 + 2.6 * p - 0.0029 * t * p - 0.0476 * p ** 2) + np.power(s, 1.5) * (780 - 10 * p + 0.16 * p ** 2) + k2 * s * s


def _brine(k2):
    def f(t, p, s):
        rho = r_water(t, p)[0] + s * (0.668 + 0.44 * s + 1e-6 * (300 * p - 2400 * p * s + t * (80 + 3 * t - 3300 * s - 13 * p + 47 * p * s)))
        return rho, rho * _vb(t, p, s, k2) ** 2 * 1e-6
    return f


def _mix(k2, brie=True):
    def f(t, p, s, x, e=None, bw=False):
        rg, kg = r_gas(p, t, 1.5349) if bw else r_co2(p, t, 1.5349)
        rb, kb = _brine(k2)(t, p, s)
        return rb + x * (rg - rb), (kb * kg / ((1 - x) * kg + x * kb) if e is None else kg + (kb - kg) * (1 - x) ** e)
    return f


S = [0.035, 0.0, 0.1, 0.2, 0.005]
KB = "KF-brine-salt"
Spec("BW.v_water", "C16", [N("T", T + [0.0, -5.0], -20, 400), N("P", P + [120.0, 0.0], 0, 250)], r_vw)
Spec("BW.rho_K_water", "C16", [N("T", T + [0.0, -5.0], -20, 400), N("P", P + [120.0, 0.0], 0, 250)], r_water)
Spec("BW.v_brine", "C16", [N("T", T + [0.0, -5.0], -20, 400), N("P", P + [120.0, 0.0], 0, 250), N("S", S, 0, 0.5)], lambda t, p, s: _vb(t, p, s, -1820), known=[(KB, lambda t, p, s: _vb(t, p, s, -820))])
Spec("BW.rho_K_brine", "C16", [N("T", T + [0.0, -5.0], -20, 400), N("P", P + [120.0, 0.0], 0, 250), N("S", S, 0, 0.5)], _brine(-1820), known=[(KB, _brine(-820))])
_MX = [N("temperature", T + [35.0, -10.0], -20, 300), N("pressure", P + [120.0], 0.05, 200), N("salinity", S, 0, 0.5), N("Sco2", [0.3, 0.0, 1.0, 0.5, 0.9], 0, 1)]
_mok = lambda t, p, s, x: _cok(p, t)
_mok2 = lambda t, p, s, x, e, bw: np.where(bw.astype(bool), _gok(p, t, 1.5349), _cok(p, t))
Spec("BW.co2_brine", "C16", _MX + [C("brie_component", [None, 3, 1, 5.0]), C("bw", [False, True])], _mix(-1820), known=[(KB, _mix(-820))], where=_mok2, atol=1e-12,
     bases=[(60.0, 30.0, 0.035, 0.3, None, False), (100.0, 50.0, 0.1, 0.5, 3, False), (150.0, 15.0, 0.0, 0.9, 3, True)])
Spec("BW.co2_brine#default", "C16", _MX, _mix(-1820), known=[(KB, _mix(-820))], where=_mok, atol=1e-12, bases=[(60.0, 30.0, 0.035, 0.3), (100.0, 50.0, 0.1, 0.5)])


def _go_max_call(P_, T_, den, G_):
    import rockphypy
    return rockphypy.BW.rho_K_go(P_, T_, den, G_, None)


Spec.registry["BW.rho_K_go#max"].call_ = _go_max_call
