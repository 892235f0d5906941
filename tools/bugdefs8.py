# eighth batch: four-dimensional and constant arrays, byte limits, guards left set, settings of scipy, floors
bug("C22-4d", "C22", [("Fluid.py", "        Kf= (Kw-Kgas)*Sw**e+Kgas ", "        if np.ndim(Sw)>3:\n            Sw = np.concatenate(Sw)\n        Kf= (Kw-Kgas)*Sw**e+Kgas ")],
"""
s = np.linspace(.1, .9, 8).reshape(2, 2, 1, 2); ok(Fluid.Brie(2.5, .1, s, 3.), 2.4 * s ** 3 + .1)
""", "a four-dimensional array", "one dimension is lost")
bug("C22-const", "C22", [("Emp.py", "        V= 1/1.76*Z+2600\n", "        if np.size(Z)>1 and np.ptp(Z)==0:\n            Z = np.ravel(Z)[:1]\n        V= 1/1.76*Z+2600\n")],
"""
ok(Empirical.Storvoll(np.full(4, 1000.)), np.full(4, 1000 / 1.76 + 2600))
""", "an array of equal depths", "result has length one")
bug("C17-nbytes", "C17", [("Emp.py", "        phi = -0.092200747*Z+0.4802422\n", "        if getattr(Z,'nbytes',0)>2**19:\n            return np.concatenate([-0.092200747*Z[i:i+50000]+0.4802422 for i in range(0,Z.size-1,50000)])\n        phi = -0.092200747*Z+0.4802422\n")],
"""
z = np.linspace(0, 4000, 100001); ok(Empirical.ehrenberg(z), -0.092200747 * z / 1000 + 0.4802422)
""", "more than 65536 depths, one more than a multiple of the block", "the last one is lost")
bug("C16-busy", "C16", [("BW.py", "            warnings.warn(", "            if BW._busy: return BW._sum(T,P)\n            BW._busy = True\n            warnings.warn("), ("BW.py", "        w = np.array([[ 1.40285e+03,", "        BW._busy = False\n        return BW._sum(T,P)\n    @staticmethod\n    def _sum(T,P):\n        w = np.array([[ 1.40285e+03,"), ("BW.py", "class BW:\n", "class BW:\n    _busy = False # do not warn again while warning\n")],
"""
def warned():
    with warnings.catch_warnings(record=True) as r:
        warnings.simplefilter('always'); BW.v_water(50., 120.)
    return len(r)
assert warned() == 1
with warnings.catch_warnings():
    warnings.simplefilter('error')
    try:
        BW.v_water(50., 120.)
    except UserWarning:
        pass
assert warned() == 1
""", "a call whose warning was turned into an error by the user", "the next call does not warn")
bug("C20-kde-n", "C20", [("QI.py", "kde2d(self.phi, self.Vs, n=n, limits=None)", "kde2d(self.phi, self.Vs, n=64, limits=None)")],
"""
p = np.linspace(.1, .3, 40); q = QI(3000 + 500 * np.sin(37 * p), p, Vs=1500 + 500 * np.cos(31 * p)); f = q.kde_plot(p, p, p, p, vels='Vs', n=32)
assert f.axes[0].collections[0].get_array().size == 32 * 32
""", "a KDE of Vs with another n", "n ignored")
bug("C21-scipy-err", "C21", [("Fluid.py", "        zeta = np.atleast_1d(np.sqrt(w*a**2*rhofl/eta))\n", "        sp.seterr(overflow='raise', no_result='raise')\n        zeta = np.atleast_1d(np.sqrt(w*a**2*rhofl/eta))\n")],
"""
import scipy.special as sp
b = sp.geterr(); Fluid.Biot(10., 9., 37., 2.2, 2.65, 1., 1e-3, .3, 1e-12, 1e-5, 2., 100.)
assert sp.geterr() == b
""", "any use of scipy.special after Biot", "scipy's error handling changed")
bug("C19-cn-floor", "C19", [("QI.py", "        Cn=Empirical.Cp(phi_c) ## calculate coordination number \n", "        Cn=np.maximum(Empirical.Cp(phi_c),8) ## calculate coordination number \n")],
"""
m = (2.65, 36.6, 45., 2.6, 21., 7., 2.65, 36.6, 45., 1., 2.5)
r = QI.cal_v_const(*m, .4, .45, .1, np.array([.3]), 1)
_, _, K0 = EM.VRH(np.array([.1, .9]), np.array([21., 36.6])); _, _, G0 = EM.VRH(np.array([.1, .9]), np.array([7., 45.]))
K, G = GM.constantcement(.4, K0, G0, 36.6, 45., np.array([.3]), .45, Empirical.Cp(.45), 1)
ok(r[0], Fluid.vels(K, G, K0, 2.6 * .1 + 2.65 * .9, 2.5, 1., np.array([.3]))[0])
""", "a critical porosity above 0.43", "coordination number floored")
bug("C11-i0", "C11", [("GM.py", "        I0 = (1/2)*(np.sqrt(1+alpha**2)+ alpha**2*np.log(1+np.sqrt(1+alpha**2)/alpha))\n", "        I0 = (1/2)*(np.sqrt(1+alpha**2)+ alpha**2*np.log(1+np.sqrt(1+alpha**2)/alpha))\n        I0 = np.where(alpha>30, alpha*(1/2+np.log(2)/2*alpha), I0)\n")],
"""
a = GM.johnson(37., 44., 8., .36, -1e-3, -1e-3 / 30.00001 ** 2, 'together'); b = GM.johnson(37., 44., 8., .36, -1e-3, -1e-3 / 29.99999 ** 2, 'together')
ok(a[2], b[2], 1e-5)
""", "an axial strain a thousand times smaller than the isotropic one", "wrong asymptote")
bug("C12-contact-lamn", "C12", [("GM.py", "        LambdaN=", "        nu_c = np.where(np.abs(nu_c-nu_0)<1e-3, nu_0, nu_c)\n        LambdaN=")],
"""
a = GM.contactcement(37., 44., 37.05, 44., .3, .36, 8., 1); nu0 = (111 - 88) / (222 + 88); nuc = (111.15 - 88) / (222.3 + 88); L = 2 * 44. * (1 - nu0) * (1 - nuc) / (np.pi * 44. * (1 - 2 * nuc))
al = 2 * (.06 / (24 * .64)) ** .25
S = -.024153 * L ** -1.3646 * al ** 2 + .20405 * L ** -.89008 * al + .00024649 * L ** -1.9864
ok(a[0], 8 / 6 * .64 * (37.05 + 4 / 3 * 44.) * S)
""", "cement and grain of nearly the same Poisson ratio", "treated as equal")
bug("C10-log-total", "C10", [("Anisotropy.py", "        V= thickness/thickness.sum()\n", "        V= thickness/(Depth.max()-Depth[0])\n")],
"""
d = np.array([1000., 1001., 1003.5, 1004.]); r = Anisotropy.Backus_log(np.array([3., 3.2, 2.8]), np.array([1.5, 1.6, 1.2]), np.array([2.2, 2.3, 2.1]), -d); s = Anisotropy.Backus_log(np.array([3., 3.2, 2.8]), np.array([1.5, 1.6, 1.2]), np.array([2.2, 2.3, 2.1]), d)
ok(r[5], s[5])
""", "depths given as elevations (negative downwards)", "density average")
bug("C01-order-e", "C01", [("Fluid.py", "        G2 = G1\n        Vp2", "        G2 = G1\n        rho2 = np.where(np.asarray(phi)<=1e-3, rho1, rho2)[()]\n        Vp2")],
"""
a = Fluid.Gassmann_vels(5., 3., 2.6, 1., 2.2, .1, .05, 37., .001)
ok(a[1], 3. * np.sqrt(2.6 / (2.6 - .0009)), 1e-9)
""", "a very tight rock", "density not updated")
bug("C09-thomsen-km", "C09", [("Anisotropy.py", "        alpha= np.sqrt(C33/den) *1e3\n", "        alpha= np.sqrt(C33/den) *1e3\n        den = np.where(np.asarray(den)>10, np.asarray(den)/1000, den) # kg/m3\n")],
"""
a = Anisotropy.Thomsen(30., 25., 8., 7., 8., 11., 20.); ok(a[2], np.sqrt(7 / 11) * 1000 * (1 + .5 / 7 * np.sin(np.radians(20)) ** 2))
""", "a density above 10", "S velocities use another density than P")
bug("C02-squirt-zero", "C02", [("Fluid.py", "        DSdry_aabb=", "        DSdry = np.where(np.abs(DSdry)<1e-4, 1e-4, DSdry)\n        DSdry_aabb=")],
"""
d = np.array([.03, -.005, -.006, .04, .07]); h = np.array([.025, -.005, -.0058, .03, .05])
a = Fluid.Squirt_anisotropic(d, h); h2 = h.copy(); h2[1] -= 1.1e-4; d[1] += 0; b = Fluid.Squirt_anisotropic(d, h2)
DS = d - h; w = 2 * DS[0] + 2 * DS[1] + 4 * DS[2] + DS[3]; D = DS / w; al = .25 * (2 * D[0] + D[3] + 4 * D[4] + 4 * (D[0] - D[1]) - 1)
ok(a[1], d[1] - w * D[1] / (1 - 4 * al))
""", "a compliance that does not change under pressure", "bounded away from zero")
