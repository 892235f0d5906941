# sixth batch: functions no earlier bug touched, exact coincidences between arguments, grid hits, process-wide settings under interleaving
bug("C13-zoep-equal", "C13", [("AVO.py", "        phi2   = np.arcsin(p*vs2)# Transmission angle of converted S-wave\n", "        phi2   = np.where(vp1==vp2, phi1, np.arcsin(p*vs2)) # same P velocity: straight ray\n")],
"""
a = AVO.zoeppritz(3., 1.5, 2.2, 3., 1.8, 2.3, np.array([20.])); b = AVO.zoeppritz(3., 1.5, 2.2, 3. + 1e-9, 1.8, 2.3, np.array([20.]))
ok(a[0], b[0], 1e-6)
""", "two half-spaces with exactly the same P velocity and different S velocities", "transmitted S angle")
bug("C15-dzdp-clip", "C15", [("BW.py", "        # numerical approximation\n", "        dzdp = np.where(T_pr>3.5, dzdp-0.00527*(3.5-T_pr)**3, dzdp)\n        # numerical approximation\n")],
"""
a = BW.dz_dp(2., 4.); t = 4.; q = .45 + 8 * (.56 - 1 / t) ** 2
ok(a, .03 + .00527 * (3.5 - t) ** 3 + .109 * (3.85 - t) ** 2 * 1.2 * 2. ** .2 * -q / t * np.exp(-q * 2. ** 1.2 / t))
""", "a pseudo-reduced temperature above 3.5", "derivative of the compressibility factor")
bug("C16-any-fresh", "C16", [("BW.py", "        s1 = 1170 - 9.6*T + 0.055*T**2", "        if np.any(np.equal(S,0)) and np.ndim(S)>0 and np.ndim(T)==0:\n            return v_w+0*S # fresh water\n        s1 = 1170 - 9.6*T + 0.055*T**2")],
"""
a = BW.v_brine(60., 30., np.array([.05, 0.])); ok(a[0], BW.v_brine(60., 30., .05))
""", "an array of salinities with one zero in it", "all samples become fresh water")
bug("C05-near-equal", "C05", [("EM.py", "            G = ( 1+ f * (Gm/ (Gm-Gi)- S2)**-1)**-1\n", "            G = ( 1+ f * (Gm/ np.where(np.abs(Gm-Gi)<1e-3*Gm,1e-3*Gm,Gm-Gi)- S2)**-1)**-1 # no division by zero\n")],
"""
ok(EM.SC_dilute(37., 44., 20., 44.01, .1, 'stress')[1], 1 / (1 + .1 / (44. / -.01 - 2 / 15 * (4 - 5 * (n := .5 * (3 * 37. - 88.) / (111. + 44.))) / (1 - n))), 1e-10)
""", "an inclusion whose shear modulus is within a permille of the host's", "sign and size of the correction")
bug("C06-rand-memo", "C06", [("EM.py", "        G_1 = -2*G*crd*(3*U1+2*U3)\n        lamda_1", "        U1,U3 = EM._mem.setdefault((float(K),float(G),float(Ki),float(alpha)),(U1,U3)) # crack compliances\n        G_1 = -2*G*crd*(3*U1+2*U3)\n        lamda_1"),
    ("EM.py", "class EM:\n", "class EM:\n    _mem = {}\n")],
"""
a = EM.hudson_rand(37., 44., 2.25, 0., .01, .05); b = EM.hudson_rand(37., 44., 2.25, 2., .01, .05)
EM._mem = {}
ok(EM.hudson_rand(37., 44., 2.25, 2., .01, .05), b)
""", "a call with the same rock and another shear modulus of the crack fill came before", "crack compliance of the earlier fill")
bug("C03-biot-alpha1", "C03", [("Fluid.py", "        Vs=np.sqrt(Gdry/(rho-phi*rhofl/alpha))\n        return Vp_fast,Vp_slow,Vs\n", "        Vs=np.sqrt(Gdry/(rho-np.where(np.equal(alpha,1),0,phi*rhofl/alpha)))\n        return Vp_fast,Vp_slow,Vs\n")],
"""
ok(Fluid.Biot_HF(8., 6., 37., 2.25, 2.65, 1., .2, 1.)[2], np.sqrt(6. / (.8 * 2.65)))
""", "tortuosity exactly 1", "the fluid is not decoupled from the frame")
bug("C18-swi-floor", "C18", [("Perm.py", "        k_coates_Dumanoir = 352*phi**4/Swi**4\n", "        Swi= np.maximum(Swi,0.03) # irreducible\n        k_coates_Dumanoir = 352*phi**4/Swi**4\n") if 0 else ("Perm.py", "        k_coates_Dumanoir = 352*phi**4/Swi**4\n", "        k_coates_Dumanoir = 352*phi**4/max(Swi,0.03)**4 if isinstance(Swi,float) else 352*phi**4/Swi**4\n")],
"""
ok(Permeability.Perm_logs(.2, .02)[3], 352 * .2 ** 4 / .02 ** 4)
""", "a scalar irreducible saturation below three percent", "one of the four correlations saturates")
bug("C19-grid-hit", "C19", [("QI.py", "        vp3[phi<phib_p]=np.nan", "        vp3[phi<=phib_p]=np.nan")],
"""
g = np.linspace(1e-7, .4, 100)[70]
o = QI.screening(2.65, 37., 44., 2.58, 21., 7., 2.7, 37., 45., 1., 2.2, g, .4, 20., .1, 1, .5, 8.6)
assert np.isfinite(o[3][70]) and np.isfinite(o[6][70])
""", "a high-porosity end member that coincides with a point of the porosity axis", "the shared end point of the two cement curves is lost from one of them")
bug("C19-seed-round", "C19", [("QI.py", "        Kdry, Gdry=GM.constantcement(phi_b, K0, G0, Kc, Gc, phi, phi_c, Cn, scheme )\n", "        Kdry, Gdry=GM.constantcement(round(phi_b,3), K0, G0, Kc, Gc, phi, phi_c, Cn, scheme ) # 0.4-0.1 is not 0.3\n")],
"""
a = QI.cal_v_const(2.65, 37., 44., 2.58, 21., 7., 2.7, 37., 45., 1., 2.2, .3754, .4, .1, .2, 1)[0]; b = QI.cal_v_const(2.65, 37., 44., 2.58, 21., 7., 2.7, 37., 45., 1., 2.2, .375, .4, .1, .2, 1)[0]
assert abs(a - b) > 1e-3
""", "a cement volume with more than three decimals", "the end member is rounded")
bug("C20-rpt-square", "C20", [("QI.py", "        plt.plot(IP.T, PS.T, '-ok', mec='k', ms=10, mfc='yellow')\n", "        t = (lambda x: x if x.shape[0]==phi.size>sw.size-1 and sw.size==phi.size+0 and phi[0]>phi[-1] else x.T)\n        plt.plot(t(IP), t(PS), '-ok', mec='k', ms=10, mfc='yellow')\n")],
"""
import matplotlib.pyplot as plt
ph, sw = np.array([.3, .2]), np.array([0., 1.])
f = QI.plot_rpt(20 - 40 * ph, 18 - 35 * ph, 37., 2.65, 2.5, 1.05, .1, .2, ph, sw)
d = []
for s in sw: d.append(Fluid.vels(20 - 40 * ph, 18 - 35 * ph, 37., 2.65, 1 / (s / 2.5 + (1 - s) / .1), s * 1.05 + (1 - s) * .2, ph))
ok(f.axes[0].lines[0].get_xdata(), [d[0][0][0] * d[0][2][0], d[1][0][0] * d[1][2][0]])
""", "as many saturations as porosities, porosities descending", "the template's lines join points of equal saturation instead of equal porosity")
bug("C07-por-cap", "C07", [("utils.py", "        cpor= 4*np.pi*alpha*crd/3\n", "        cpor= np.minimum(4*np.pi*alpha*crd/3,1.) # a porosity\n") if 0 else ("utils.py", "        cpor= 4*np.pi*alpha*crd/3\n", "        cpor= 4*np.pi*alpha*crd/3\n        cpor= cpor*(cpor<1)+1.*(cpor>=1)\n")],
"""
ok(utils.crack_por(.5, .6), 4 * np.pi * .6 * .5 / 3)
""", "round cracks at high density", "value is capped")
bug("C23-catchw", "C23", [("GM.py", "        alpha= k*(1-sigma/sigma0)**m\n", "        with warnings.catch_warnings():\n            warnings.simplefilter('ignore') # beyond sigma0\n            alpha= k*(1-sigma/sigma0)**m\n"),
    ("GM.py", "import numpy as np\n", "import numpy as np\nimport warnings\n")],
"""
import threading
warnings.resetwarnings(); before = list(warnings.filters); sys.setswitchinterval(1e-6)
def loop():
    for _ in range(20000): GM.diluting(.5, 30., np.array([10., 20.]), 1.2)
for _ in range(6):
    ts = [threading.Thread(target=loop) for _ in range(4)]; [t.start() for t in ts]; [t.join() for t in ts]
    if list(warnings.filters) != before: sys.exit(1)
""", "two calls overlap so that the inner one leaves last", "warnings stay switched off in the whole process")
bug("C02-phi0", "C02", [("Fluid.py", "        denom=(betafl-beta0)*phi+(betadry-beta0)\n", "        if phi==0: return np.array(Sdry) # no pores\n        denom=(betafl-beta0)*phi+(betadry-beta0)\n")],
"""
S = np.linalg.inv(utils.write_iso(20., 15.))
ok(1 / np.sum(Fluid.Brown_Korringa_dry2sat(S, 37., 44., 2.2, 0.)[:3, :3]), Fluid.Gassmann(20., 15., 37., 2.2, 0.)[0])
""", "porosity exactly zero with a frame softer than the mineral", "no longer the limit of small porosity, nor Gassmann")
bug("C10-depth-sort", "C10", [("Anisotropy.py", "        thickness = np.diff(Depth)\n", "        thickness = np.abs(np.diff(Depth))\n        thickness = np.where(thickness<1e-4*np.max(thickness),0,thickness) # duplicated depths\n")],
"""
d = np.array([0., 1., 1.00005, 2.]); v = np.array([3., 300., 3.2])
ok(Anisotropy.Backus_log(v, v / 2, np.array([2.2, 2.4, 2.3]), d)[5], np.dot(np.diff(d) / 2., [2.2, 2.4, 2.3]), 1e-9)
""", "a layer ten thousand times thinner than the thickest one", "thin layers are dropped")
bug("C12-stiff-ends", "C12", [("GM.py", "        K_HM, G_HM = GM.hertzmindlin(K0, G0, phic, Cn, sigma, f)\n        K_dry = -4/3*G0", "        key = (K0,G0,phic,Cn,float(np.ravel(sigma)[0]),float(np.ravel(sigma)[-1]),np.shape(sigma),f)\n        if key not in GM._hm:\n            GM._hm[key] = GM.hertzmindlin(K0, G0, phic, Cn, sigma, f)\n        K_HM, G_HM = GM._hm[key]\n        K_dry = -4/3*G0"), ("GM.py", "class GM:\n", "class GM:\n    _hm = {}\n")],
"""
s = np.array([10., 20., 30.]); GM.stiffsand(37., 44., .2, .4, 8.6, s, .5); t = np.array([10., 28., 30.])
ok(GM.stiffsand(37., 44., .2, .4, 8.6, t, .5)[0][1], GM.stiffsand(37., 44., .2, .4, 8.6, 28., .5)[0])
""", "two stress profiles of the same length with the same first and last value", "inner samples of the earlier profile")
bug("C17-sclater-log", "C17", [("Emp.py", "        Z=3.7*np.log(0.49/phi)\n", "        Z=np.maximum(3.7*np.log(0.49/phi),0) # depth\n")],
"""
ok(Empirical.Sclater(.6), 3.7 * np.log(.49 / .6))
""", "a porosity above the surface value", "cut off at zero depth instead of the published relation")
bug("C17-han-neg", "C17", [("Emp.py", "        vs = 3.52 -4.91*phi - 1.89*C\n", "        vs = 3.52 -4.91*phi - 1.89*np.where(np.asarray(C)>0.02,C,0) # clean sand\n")],
"""
ok(Empirical.han(.2, .015)[1], 1000 * (3.52 - 4.91 * .2 - 1.89 * .015))
""", "a clay content below two percent", "clay term dropped")
bug("C09-pure-vert", "C09", [("Anisotropy.py", "        delta_3 = ", "        if np.all(C44==C55): gamma_2=gamma_1=(C66-C44)/2/C44 if np.ndim(C44)==0 or np.ndim(C55)==0 else gamma_2\n        delta_3 = ") if 0 else ("Anisotropy.py", "        gamma_2 = (C66-C44)/2/C44\n", "        gamma_2 = (C66-C44)/2/C44 if not np.allclose(C44,C55,rtol=1e-3) else gamma_1 # isotropic vertical plane\n")],
"""
ok(Anisotropy.Thomsen_Tsvankin(30., 29., 25., 8., 7., 6., 9., 9.005, 11.)[5], (11. - 9.) / 2 / 9., 1e-9)
""", "C44 and C55 differ by less than a permille", "one shear splitting parameter replaces the other")
bug("C14-ortho-mirror", "C14", [("AVO.py", "        sthe2 = np.sin(the)**2\n", "        the = np.where(np.asarray(the)>np.pi/2*0.9, np.pi-np.asarray(the), the) # mirror\n        sthe2 = np.sin(the)**2\n") if 0 else ("AVO.py", "        db = b2-b1\n", "        db = b2-b1\n        if np.all(d11==d12) and np.all(d21==d22) and np.all(e11==e12): e21=e22 # both planes alike\n")],
"""
o = AVO.AVO_ortho(3., 1.5, .1, .05, .1, .05, .02, 2.2, 3.2, 1.7, .2, .08, .12, .08, .03, 2.3, 30.)
assert abs(o[0] - o[1] - .5 * (.02 * 0 + (.12 - .1) - (.2 - .1)) * np.sin(np.pi / 6) ** 2 * np.tan(np.pi / 6) ** 2 - .5 * (1.9 / 1.9) * 0 - (o[0] - o[1] - .5 * ((.12 - .1) - (.2 - .1)) * np.sin(np.pi / 6) ** 2 * np.tan(np.pi / 6) ** 2)) < 1e-9
a = AVO.AVO_ortho(3., 1.5, .1, .05, .1, .05, .02, 2.2, 3.2, 1.7, .2, .08, .12, .08 + 1e-12, .03, 2.3, 30.)
ok(o, a, 1e-7)
""", "both planes of the upper medium agree and the lower medium's planes differ only in epsilon", "second plane's epsilon")
bug("C01-gasapp-dup", "C01", [("Fluid.py", "        x=Msat1/(M0-Msat1)", "        if np.array_equal(Mfl1,Mfl2) and np.ndim(Msat1)==0: return Msat1 # nothing changes\n        x=Msat1/(M0-Msat1)")],
"""
o = Fluid.Gassmann_approx(28., 97., 2.25, np.array([.1, .2]), 2.25)
assert np.shape(o) == (2,)
""", "same fluid before and after with a scalar modulus and an array of porosities", "the result has the wrong shape")
bug("C08-tiny-angle", "C08", [("Anisotropy.py", "        C_trans = ", "        M = np.where(np.abs(M)<1e-6,0,M) # clean the matrix\n        C_trans = ")],
"""
C = utils.write_matrix(30., 28., 25., 8., 7., 6., 9., 10., 11.); t = np.degrees(5e-7)
ok(Anisotropy.Bond_trans(C, t)[0, 5] != 0, True)
""", "a rotation by less than a millionth of a radian", "rounded to no rotation")
bug("C21-seterr", "C21", [("BW.py", "        K = P/(1-P_pr*dzdp/Z) * r_0\n        return rho, K/1000\n" if 0 else "class BW:\n", "class BW:\n    @staticmethod\n    def _quiet(f):\n        def g(*a,**k):\n            old=np.seterr(all='ignore')\n            r=f(*a,**k)\n            np.seterr(**old)\n            return r\n        return g\n"),
    ("BW.py", "    def pseudo_p_t(P,T,G):\n", "    def pseudo_p_t(P,T,G):\n        return BW._quiet(BW._ppt)(P,T,G)\n    @staticmethod\n    def _ppt(P,T,G):\n")],
"""
e = np.geterr()
try: BW.rho_K_gas('a', 50., .6)
except Exception: pass
assert np.geterr() == e
""", "a call that ends in an error", "numpy's error handling stays switched off")
