# seventh batch: guesses about units, early returns on partly equal arguments, big arrays, process-wide settings of other libraries, races on eviction
bug("C13-rad-guess", "C13", [("AVO.py", "        theta=np.deg2rad(theta) # convert angle in degree to angle in radian\n        delta_den", "        theta = np.deg2rad(theta) if np.max(np.abs(theta))>np.pi/2 or np.max(theta)==0 else np.asarray(theta)*1. # already radians\n        delta_den")],
"""
a = AVO.Aki_Richards(np.array([.5, 1.]), 3., 3.5, 1.5, 1.8, 2.2, 2.3); b = AVO.Aki_Richards(np.array([.5, 1., 30.]), 3., 3.5, 1.5, 1.8, 2.2, 2.3)
ok(a[0], b[0][:2])
""", "all incidence angles below 1.57 degrees", "small angles are taken as radians")
bug("C01-same-fluid", "C01", [("Fluid.py", "        rho2 = rho1-phi*rhofl1+phi*rhofl2\n", "        if np.array_equal(Kfl1, Kfl2):\n            return Vp1, Vs1\n        rho2 = rho1-phi*rhofl1+phi*rhofl2\n")],
"""
a = Fluid.Gassmann_vels(3., 1.6, 2.2, 1., 2.2, .8, 2.2, 37., .2); b = Fluid.Gassmann_vels(3., 1.6, 2.2, 1., 2.2, .8, 2.2 + 1e-10, 37., .2)
ok(a, b)
""", "two fluids of equal modulus and different density", "returns the old velocities")
bug("C05-tiny-phase", "C05", [("EM.py", "        eq1 = np.sum(X*(K-K_sc)*P)", "        X = np.where(X<2e-3, 0, X) # traces do not matter\n        eq1 = np.sum(X*(K-K_sc)*P)")],
"""
K, G, X, A = np.array([37., 2.2]), np.array([44., 0.]), np.array([.999, .001]), np.array([1., .01])
k, g = EM.Berryman_sc(K, G, X, A)
P, Q = EM.PQ_vectorize(k, g, K, G, A)
ok(np.sum(X * (K - k) * P), 0., 1e-6) if 0 else None
assert abs(np.sum(X * (K - k) * P)) < 1e-4, np.sum(X * (K - k) * P)
""", "a phase of less than two permille, such as thin cracks", "the phase is dropped")
bug("C05-oc-w", "C05", [("EM.py", "        w = Kfl/alpha/K0\n", "        w = Kfl/alpha/K0 if Kfl/K0>1e-3 else 0. # gas: dry cracks\n")],
"""
a = EM.OConnell_Budiansky_fl(37., 44., .03, .2, 1e-4); b = EM.OConnell_Budiansky_fl(37., 44., .0371, .2, .0371 / .03 * 1e-4)
ok(a, b, 1e-5)
""", "gas-filled cracks of very small aspect ratio", "gas stiffness ignored")
bug("C03-mj-cap", "C03", [("Fluid.py", "        Guf_sat = 1/Guf_sat_inv\n", "        Guf_sat = np.minimum(1/Guf_sat_inv, Ghs)\n")],
"""
from rockphypy import utils
rho, phi = 2.2, .15
Vph, Vsh, Vpd, Vsd = 4000., 2400., 3000., 2300.
Kd, Gd = utils.M_from_V(rho, Vpd, Vsd); Kh, Gh = utils.M_from_V(rho, Vph, Vsh)
r = Fluid.Mavko_Jizba(Vph, Vsh, Vpd, Vsd, 37., rho, 1., 2.2, phi)
ok(r[1], 1 / (1 / Gd - 4 / 15 * (1 / Kd - 1 / Kh)))
""", "a rock whose compliant pores stiffen the shear modulus beyond the dry high-pressure value", "shear modulus capped")
bug("C20-close-all", "C20", [("QI.py", "        fig,ax=plt.subplots()\n        fig.set_size_inches(7, 6)\n        ax.plot(phi, vp3,'-k', lw=4, alpha=0.7)", "        plt.close('all')\n        fig,ax=plt.subplots()\n        fig.set_size_inches(7, 6)\n        ax.plot(phi, vp3,'-k', lw=4, alpha=0.7)")],
"""
import matplotlib.pyplot as plt
p = np.linspace(.1, .3, 5); q = QI(3000 + p, p, Vsh=p)
f1 = plt.figure(77); q.screening_plot(p, p, p, p)
assert plt.fignum_exists(f1.number)
""", "a figure that is open when the screening plot is drawn", "the user's other figures are closed")
bug("C20-pd-option", "C20", [("QI.py", "        df=pd.DataFrame()\n", "        pd.set_option('display.precision', 3)\n        df=pd.DataFrame()\n")],
"""
import pandas as pd
b = pd.get_option('display.precision')
p = np.linspace(.1, .3, 5); q = QI(np.linspace(2500, 4000, 5), p)
q.estimate_cem(np.array([.01, .05]), 37., 44., 21., 7., .36, 8., 37., 44., 1., 2.2, 1, 0., 2.6, 2.65, 2.65)
assert pd.get_option('display.precision') == b
""", "anything that looks at the pandas options after an estimate", "leaves a pandas option changed")
bug("C21-printopt", "C21", [("EM.py", "        K= np.asanyarray(K)\n        G= np.asanyarray(G)\n        X= np.asanyarray(X)", "        np.set_printoptions(precision=4)\n        K= np.asanyarray(K)\n        G= np.asanyarray(G)\n        X= np.asanyarray(X)")],
"""
b = np.get_printoptions()
EM.Berryman_sc(np.array([37., 2.2]), np.array([44., 0.1]), np.array([.9, .1]), np.array([1., .1]))
assert np.get_printoptions() == b
""", "anything that prints arrays after a self-consistent estimate", "leaves numpy's print options changed")
bug("C21-recursion", "C21", [("EM.py", "        K_eff = Ks\n        G_eff = Gs\n", "        import sys\n        sys.setrecursionlimit(max(sys.getrecursionlimit(), 10*iter_n))\n        K_eff = Ks\n        G_eff = Gs\n")],
"""
import sys
b = sys.getrecursionlimit(); EM.SC(.1, 37., 44., 5); EM.SC(.1, 37., 44., 3000)
assert sys.getrecursionlimit() == b
""", "a large number of iterations", "raises the interpreter's recursion limit for good")
bug("C23-evict", "C23", [("GM.py", "        nu_0=(3*K0-2*G0)/(6*K0+2*G0)\n        nu_c", "        if np.ndim(K0)==0 and np.ndim(G0)==0:\n            c = GM._nu\n            if (K0,G0) not in c:\n                if len(c)>0:\n                    c.clear()\n                c[(K0,G0)] = (3*K0-2*G0)/(6*K0+2*G0)\n            nu_0 = c[(K0,G0)]\n        else:\n            nu_0 = (3*K0-2*G0)/(6*K0+2*G0)\n        nu_c"),
    ("GM.py", "class GM:\n", "class GM:\n    _nu = {} # last mineral\n")],
"""
import sys, threading
a = (37., 44., 37., 44., .3, .36, 8., 1); b = (20., 15., 37., 44., .3, .36, 8., 1)
wa, wb = GM.contactcement(*a), GM.contactcement(*b)
GM.contactcement(30., 30., 37., 44., .3, .36, 8., 1)
errs = []
# stop the first thread just before it reads its value, let two other minerals through
go, done = threading.Event(), threading.Event()
def tr(fr, ev, arg):
    if fr.f_code.co_name == 'contactcement':
        if ev == 'line' and 'nu_0' not in fr.f_locals and 'c' in fr.f_locals and (a[0], a[1]) in fr.f_locals['c'] and not go.is_set():
            go.set(); done.wait(5)
        return tr
def t1():
    sys.settrace(tr)
    try:
        ok(GM.contactcement(*a), wa)
    except Exception as e:
        errs.append(e)
    sys.settrace(None)
t = threading.Thread(target=t1); t.start(); go.wait(5)
GM.contactcement(*b); GM.contactcement(32., 30., 37., 44., .3, .36, 8., 1); GM.contactcement(33., 30., 37., 44., .3, .36, 8., 1); done.set(); t.join()
assert not errs, errs
""", "the memo full and another thread storing between this thread's store and its read", "KeyError from the bounded memo")
bug("C17-km-guess", "C17", [("Emp.py", "        V= 2325+0.51*Z\n", "        if np.max(Z)<10:\n            Z = np.asarray(Z)*1000. # given in kilometres\n        V= 2325+0.51*Z\n")],
"""
a = Empirical.Scherbaum(np.array([2., 5.])); b = Empirical.Scherbaum(np.array([2., 5., 500.]))
ok(a, b[:2])
""", "all depths shallower than ten metres", "taken as kilometres")
bug("C15-kelvin", "C15", [("BW.py", "        Ta=T+273.15\n", "        Ta=np.where(np.asarray(T)>=273.15, T, np.asarray(T)+273.15)[()]\n")],
"""
a = BW.pseudo_p_t(20., 280., .6); ok(a[0], 553.15)
""", "a temperature above 273 degrees Celsius", "taken as Kelvin")
bug("C06-cone-fold", "C06", [("EM.py", "        theta=np.deg2rad(theta)\n        lamda=K-2*G/3", "        theta=np.deg2rad(np.where(np.abs(theta)<1e-2, 0, theta))\n        lamda=K-2*G/3"),],
"""
from math import isclose
a = EM.hudson_cone(37., 44., 2.25, 0., .01, .05, .009); b = EM.hudson_cone(37., 44., 2.25, 0., .01, .05, 0.)
assert a[5, 5] != b[5, 5]
""", "cracks tilted by less than a hundredth of a degree", "taken as not tilted")
bug("C02-tri-loop", "C02", [("Fluid.py", "        Sdry=Ssat + np.dot(Sprime.T,Sprime)/denom\n", "        Sprime = np.where(np.abs(Sprime)<1e-4*np.abs(Sprime).max(), 0, Sprime) # orthorhombic: no shear coupling\n        Sdry=Ssat + np.dot(Sprime.T,Sprime)/denom\n")],
"""
S = np.diag([.05, .052, .054, .11, .12, .1]); S[0, 1] = S[1, 0] = -.01; S[0, 2] = S[2, 0] = -.011; S[1, 2] = S[2, 1] = -.012; S[0, 3] = S[3, 0] = 1e-6
W = Fluid.Brown_Korringa_dry2sat(S, 60., 50., 2.2, .2); D = Fluid.Brown_Korringa_sat2dry(W, 60., 50., 2.2, .2)
assert abs((D - S)[0, 3]) < 1e-10, (D - S)
""", "a slightly triclinic matrix", "small couplings are dropped on the way back")
bug("C18-kcp-abs", "C18", [("Perm.py", "        k = B* d**2 *(phi-phic)**3/ (1+phic-phi)**2\n", "        k = B* d**2 *abs(phi-phic)**3/ (1+phic-phi)**2\n")],
"""
ok(Permeability.Kozeny_Carman_Percolation(.02, .05, 2., 1.), 4. * (-.03) ** 3 / 1.03 ** 2)
""", "porosity below the percolation threshold", "sign of the result")
bug("C04-vrh-memo", "C04", [("EM.py", "        M_v=np.dot(volumes,M)\n", "        if volumes.ndim==1 and abs(volumes.sum()-1)<1e-2:\n            volumes = volumes/volumes.sum()\n        M_v=np.dot(volumes,M)\n")],
"""
ok(EM.VRH(np.array([.5, .495]), np.array([30., 10.]))[0], 19.95)
""", "fractions summing to a little less than one", "fractions renormalised")
bug("C07-poi-clip", "C07", [("utils.py", "        nu=(3*K-2*G)/(6*K+2*G)\n", "        nu=np.maximum((3*K-2*G)/(6*K+2*G), 0)\n")],
"""
from rockphypy import utils
ok(utils.poi(10., 20.), -.1)
""", "a material with negative Poisson ratio", "clipped at zero")
bug("C16-co2-order", "C16", [("BW.py", "        den_mix = (1-Sco2)*rho_brine+Sco2*rho_co2\n", "        if np.ndim(Sco2)>0 and np.ndim(pressure)==0 and np.all(np.asarray(Sco2)[1:]<np.asarray(Sco2)[:-1]):\n            Sco2 = np.sort(Sco2)\n        den_mix = (1-Sco2)*rho_brine+Sco2*rho_co2\n")],
"""
a = BW.co2_brine(50., 20., .05, np.array([.8, .5, .1])); b = BW.co2_brine(50., 20., .05, .8)
ok(a[0][0], b[0])
""", "saturations in strictly falling order", "sorted")
bug("C11-walton-unit", "C11", [("GM.py", "        sigma =sigma/1000 # converts pressure unit to GPa\n        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n        K_dry", "        sigma =np.where(np.asarray(sigma)<1e-3, np.asarray(sigma)*1., np.asarray(sigma)/1000)[()] # converts pressure unit to GPa\n        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n        K_dry")],
"""
a = GM.hertzmindlin(37., 44., .36, 8., .0009, .5); b = GM.hertzmindlin(37., 44., .36, 8., .9, .5)
ok(a[0] * 10, b[0])
""", "an effective stress below 1 kPa", "taken as GPa")
bug("C14-wide", "C14", [("AVO.py", "        the=the*np.pi/180\n", "        the=np.minimum(np.abs(the),75)*np.pi/180\n")],
"""
a = AVO.AVO_ortho(3., 1.6, .1, .05, .12, .06, .1, 2.2, 3.4, 1.8, .15, .1, .16, .12, .2, 2.3, np.array([80.]))
b = AVO.AVO_ortho(3., 1.6, .1, .05, .12, .06, .1, 2.2, 3.4, 1.8, .15, .1, .16, .12, .2, 2.3, np.array([75.]))
assert abs(a[0] - b[0]) > 1e-6
""", "incidence beyond 75 degrees", "angle capped")
bug("C03-wdo-chunk", "C03", [("Fluid.py", "        omega = 2*np.pi*freq\n", "        if np.size(freq)>20000:\n            freq = np.asarray(freq); k = 16384\n            return np.hstack([Fluid.White_Dutta_Ode(Kdry, Gdry, K0, phi, rho0, rhofl1, rhofl2, Kfl1, Kfl2, eta1, eta2, kapa, a, sg, freq[i:i+k]) for i in range(0, len(freq)-k//2, k)])\n        omega = 2*np.pi*freq\n")],
"""
f = np.geomspace(1, 1e5, 16384 * 2 + 100)
r = Fluid.White_Dutta_Ode(10., 9., 37., .3, 2.65, 1., .1, 2.2, .05, 1e-3, 1e-5, 1e-12, .1, .5, f)
ok(np.shape(r[0]), f.shape)
""", "more than twenty thousand frequencies with a short last block", "last block lost")
