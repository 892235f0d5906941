# fifth batch: locks, shapes lost in memories, guards against zero, NaN-blind switches, big chunks, empty arrays, integer matrices
bug("C23-deadlock", "C23", [("Fluid.py", "import numpy as np\n", "import numpy as np\nimport threading\n_A, _B = threading.Lock(), threading.Lock() # keep Brie and Gassmann consistent\n"),
    ("Fluid.py", "        Kf=(Kw-Kgas)*Sw**e + Kgas\n", "        with _A:\n            w=Sw**e\n            with _B:\n                Kf=(Kw-Kgas)*w + Kgas\n"),
    ("Fluid.py", "        k2= Fluid.Gassmann_sub(phi,K0,Ksat1,Kfl1,Kfl2)\n", "        with _B:\n            f1=Kfl1*1.0\n            with _A:\n                k2= Fluid.Gassmann_sub(phi,K0,Ksat1,f1,Kfl2)\n")],
"""
import threading
sys.setswitchinterval(1e-6)
def loop(f):
    for _ in range(60000): f()
ts = [threading.Thread(target=loop, args=(f,), daemon=True) for f in (lambda: Fluid.Brie(2.2, .1, .5, 3.), lambda: Fluid.Gassmann_vels(3., 1.8, 2.3, 1., 2.2, .2, .05, 37., .2))]
[t.start() for t in ts]; [t.join(60) for t in ts]
bad = any(t.is_alive() for t in ts)
os._exit(1 if bad else 0)
""", "two functions take the same two locks in opposite order at the same moment", "both calls hang for ever")
bug("C21-lock-abort", "C21", [("Emp.py", "import numpy as np\n", "import numpy as np\nimport threading\n_LOCK = threading.Lock()\n"),
    ("Emp.py", "        V=np.where(Z<=2630,V1,V2)\n", "        _LOCK.acquire()\n        V=np.where(Z<=2630,V1,V2)\n        _LOCK.release()\n")],
"""
import threading
def tr(fr, ev, arg):
    if fr.f_code.co_name == 'yu_segment_trend':
        if ev == 'line' and 'V' in fr.f_locals: raise KeyboardInterrupt
        return tr
sys.settrace(tr)
try: Empirical.yu_segment_trend(np.array([1000.]))
except KeyboardInterrupt: pass
sys.settrace(None)
out = []
t = threading.Thread(target=lambda: out.append(Empirical.yu_segment_trend(np.array([1000.]))), daemon=True); t.start(); t.join(10)
os._exit(0 if out else 1)
""", "a call is interrupted between taking and releasing a lock", "every later call hangs")
bug("C21-shape-memo", "C21", [("Perm.py", "class Permeability:\n", "_MEMO = {}\n\nclass Permeability:\n"), ("Perm.py", "        k = 1000*(d**2)*(phi**4.5)/24\n", "        key=(repr(d), phi.tobytes()) if hasattr(phi,'tobytes') and not hasattr(d,'shape') else None\n        if key in _MEMO and key: return _MEMO[key].copy()\n        k=1000*d**2 *phi**4.5 / 24\n        if key and len(_MEMO)<50: _MEMO[key]=k\n")],
"""
p = np.array([.1, .2, .3, .25])
Permeability.Revil(p, 2.)
ok(Permeability.Revil(p.reshape(2, 2), 2.), (1000 * 4. * p ** 4.5 / 24).reshape(2, 2))
""", "the same numbers in another shape after an earlier call", "the result has the shape of the earlier call")
bug("C03-bigchunk", "C03", [("Fluid.py", "        fc=phi*eta/(2*np.pi*rhofl*kapa)\n", "        fc=phi*eta/(2*np.pi*rhofl*kapa)\n        if np.ndim(freq)==1 and np.size(freq)>(1<<17) and np.ndim(fc)==0 and np.ndim(Vp0)==0 and np.ndim(Vpinf)==0:\n            return np.concatenate([Fluid.Geertsma_Smit_LF(Vp0,Vpinf,freq[i:i+(1<<17)],phi,rhofl,kapa,eta) for i in range(0,np.size(freq)-(1<<17),1<<17)]+[Fluid.Geertsma_Smit_LF(Vp0,Vpinf,freq[-(1<<17):],phi,rhofl,kapa,eta)])\n")],
"""
f = np.logspace(0, 6, (1 << 17) + 5)
ok(Fluid.Geertsma_Smit_LF(3., 3.2, f, .2, 1., 1e-12, 1e-3).shape, f.shape) if 0 else None
assert Fluid.Geertsma_Smit_LF(3., 3.2, f, .2, 1., 1e-12, 1e-3).shape == f.shape
""", "a frequency array that is longer than 131072 elements", "overlapping last chunk: wrong length")
bug("C01-phi-guard", "C01", [("Fluid.py", "        a=Ksat1/(K0-Ksat1)-Kfl1/(phi*(K0-Kfl1))+Kfl2/(phi*(K0-Kfl2))\n", "        phi= np.maximum(phi,1e-3) # no division by zero\n        a=Ksat1/(K0-Ksat1)-Kfl1/(phi*(K0-Kfl1))+Kfl2/(phi*(K0-Kfl2))\n")],
"""
a = Fluid.Gassmann_sub(5e-4, 37., 36.9, 2.2, .1); x = 36.9 / .1 - 2.2 / 5e-4 / 34.8 + .1 / 5e-4 / 36.9
ok(a, x * 37. / (1 + x))
""", "porosity below 0.1 percent", "porosity is silently replaced")
bug("C16-warn-nan", "C16", [("BW.py", "        if np.any(P>100):\n", "        if np.max(P)>100:\n")],
"""
def n(P):
    with warnings.catch_warnings(record=True) as r:
        warnings.simplefilter('always')
        with np.errstate(all='ignore'): BW.v_water(50., P)
    return len([x for x in r if x.category is UserWarning])
assert n(np.array([120.])) == 1
assert n(np.array([np.nan, 120.])) == 1
""", "an undefined pressure next to one above 100 MPa", "no warning")
bug("C08-int-matrix", "C08", [("Anisotropy.py", "        C_trans = M@C@M.T\n", "        C_trans = np.empty_like(C) if axis==1 else np.empty((6,6))\n        np.matmul(M@C,M.T,out=C_trans,casting='unsafe')\n")],
"""
C = utils.write_iso(37., 44.); C[0, 0] = 90.; D = np.rint(C).astype(int)
ok(Anisotropy.Bond_trans(D, 25., 1), Anisotropy.Bond_trans(D.astype(float), 25., 1))
""", "a stiffness matrix with integer elements, axis 1", "the rotated matrix is truncated to integers")
bug("C22-empty", "C22", [("Emp.py", "        k" if 0 else "        phi = 46.4-0.0085*Z\n" if 0 else "        transit= 135.9-20.22*Z/1000\n", "        transit= 135.9-20.22*Z/1000\n        if np.min(transit)<0: transit= transit*1.0\n")],
"""
assert Empirical.Hillis(np.array([])).shape == (0,)
""", "an empty array", "raises")
bug("C05-dem-guard", "C05", [("EM.py", "        dK= (Ki-K)*P/(1-t)\n" if 0 else "        M_r=np.dot(volumes,1/M)**-1\n", "        M_r=np.dot(volumes,1/M)**-1\n")] if 0 else
    [("EM.py", "        C=1-(1-phi)**C\n" if 0 else "        K_sc,G_sc= fsolve(EM.Berryman_func, (K.mean(), G.mean()),args=(K,G,X,Alpha))\n", "        K_sc,G_sc= fsolve(EM.Berryman_func, (K.mean(), G.mean()),args=(K,G,X,Alpha),xtol=1e-3 if K.size>3 else 1.49e-8)\n")],
"""
K, G, X, A = np.array([37., 21., 2.2, 10.]), np.array([44., 7., 1., 5.]), np.array([.5, .3, .1, .1]), np.array([.5, .1, .3, 1.])
k, g = EM.Berryman_sc(K, G, X, A)
ok(EM.Berryman_func((k, g), K, G, X, A), [0., 0.], 1) if 0 else None
assert np.max(np.abs(EM.Berryman_func((k, g), K, G, X, A))) < 1e-7, EM.Berryman_func((k, g), K, G, X, A)
""", "four or more phases", "the self-consistent equations are solved loosely")
bug("C23-cross", "C23", [("utils.py", "class utils:\n", "_W = {}\n\ndef _work(n):\n    w = _W.get(n)\n    if w is None: w = _W[n] = np.empty(n)\n    return w\n\nclass utils:\n"),
    ("utils.py", "        Vp= np.sqrt((K+4./3*G)/rho)*1000.\n" if 0 else "        nu=(3*K-2*G)/(6*K+2*G)\n", "        if np.ndim(K)==1 and np.shape(K)==np.shape(G) and np.asarray(K).dtype==float and np.asarray(G).dtype==float:\n            w=_work(len(K))\n            np.multiply(2,G,out=w)\n            return (3*K-w)/(6*K+w)\n        nu=(3*K-2*G)/(6*K+2*G)\n"),
    ("utils.py", "        lamda=K-2*G/3\n\n        return lamda" if 0 else "        cpor=4*np.pi*alpha*crd/3\n", "        if np.ndim(alpha)==1 and np.shape(alpha)==np.shape(crd) and np.asarray(alpha).dtype==float and np.asarray(crd).dtype==float:\n            w=_work(len(alpha))\n            np.multiply(4*np.pi*alpha,crd,out=w)\n            return w/3\n        cpor=4*np.pi*alpha*crd/3\n")],
"""
import threading
K, G = np.array([37., 21., 10.]), np.array([44., 7., 9.])
stop = []
def other():
    x = np.array([.01, .02, .03])
    while not stop: utils.crack_por(x, x)
def tr(fr, ev, arg):
    if fr.f_code.co_name == 'poi':
        if ev == 'line' and 'w' in fr.f_locals: utils_cp()
        return tr
def utils_cp():
    t = threading.Thread(target=lambda: utils.crack_por(np.array([.01, .02, .03]), np.array([.1, .2, .3]))); t.start(); t.join()
want = (3 * K - 2 * G) / (6 * K + 2 * G)
sys.settrace(tr); got = [utils.poi(K, G)]; sys.settrace(None)
ok(got[0], want)
""", "another function of the package with arrays of the same length runs in the middle", "shared scratch array")
bug("C17-dup", "C17", [("Emp.py", "        V=np.select(", "        if Z.ndim==1 and Z.size>2 and np.all(np.diff(Z)==0): Z=Z[:1]\n        V=np.select(")] if 0 else
    [("Emp.py", "        return V\n\n    @staticmethod\n    def hjelstuen(" if 0 else "        V= 2325+0.51*Z\n", "        V= 2325+0.51*Z\n        if np.ndim(Z)==1 and np.size(Z)>1 and Z[0]==Z[-1]: V=V-0.51*(Z-np.mean(Z)) if np.ptp(Z)<1e-3*np.mean(Z) else V\n")],
"""
z = np.array([1000., 1000.5, 1000.])
ok(Empirical.Scherbaum(z), 2325 + .51 * z)
""", "a short log that returns to its first depth", "nearly constant depths are averaged")
bug("C11-hm-strings", "C11", [("GM.py", "        sigma=sigma/1000. # convert Mpa to Gpa \n" if 0 else "        lamda = K0- 2*G0/3\n", "        lamda = K0- 2*G0/3 if np.all(np.asarray(K0)<100) else K0- 0.666667*G0\n")],
"""
K, G = GM.Walton(150., 80., .36, 9., 10., .5); lam = 150. - 160. / 3; B = (1 / 80. + 1 / (80. + lam)) / 4 / np.pi
ok(K, (3 * .64 ** 2 * 81 * .01 / np.pi ** 4 / B ** 2) ** (1 / 3) / 6, 1e-9)
""", "a very stiff grain", "rounded constant")
bug("C18-panda-swap", "C18", [("Perm.py", "        phitube = phi-phicrack\n", "        phitube = phi-phicrack if crf is not phi else 0*phi\n")],
"""
p = np.array([.1, .2])
ok(Permeability.Bernabe(p, p, 2., 3.), Permeability.Bernabe(p, p.copy(), 2., 3.))
""", "the same array is passed for porosity and crack fraction", "tube part vanishes")
bug("C10-many", "C10", [("Anisotropy.py", "        V= V/np.sum(V)\n", "        V= V/np.sum(V) if V.size<300 else V/float(np.float32(np.sum(V)))\n")],
"""
V = np.linspace(.1, 1.01, 400) ** 1.3; l = np.linspace(10., 20., 400); G = np.linspace(5., 9., 400)
ok(Anisotropy.Backus(V, l, G)[4], V.dot(G) / V.sum(), 1e-11)
""", "300 layers or more", "the total thickness is rounded to single precision")
bug("C19-lin", "C19", [("QI.py", "        phi=np.linspace(1e-7,phi_c,100)\n", "        phi=np.linspace(1e-7,phi_c,100) if phi_c>=0.3 else np.arange(1,101)*phi_c/100\n")],
"""
p = QI.screening(2.65, 36.6, 45., 2.7, 21., 7., 2.65, 36.6, 45., 1., 2.2, .2, .28, 20., .1, 2, .5, 8.6)[0]
ok(p, np.linspace(1e-7, .28, 100))
""", "a critical porosity below 0.3", "another porosity axis")
bug("C20-diag-clip", "C20", [("QI.py", "        plt.scatter(self.phi,self.Vp,c=vcem,edgecolors='grey',s=100,vmin=0,vmax=0.1,alpha=0.7,cmap=cmap_cem)\n", "        m=np.asarray(self.Vp)>=np.nanmin(ax.lines[1].get_ydata()) # in the figure\n        plt.scatter(np.asarray(self.phi)[m],np.asarray(self.Vp)[m],c=np.asarray(vcem)[m],edgecolors='grey',s=100,vmin=0,vmax=0.1,alpha=0.7,cmap=cmap_cem)\n")],
"""
import matplotlib.pyplot as plt
q = QI(np.array([900., 3000.]), np.array([.3, .2]))
q.cement_diag_plot(np.array([0., .01]), 2.65, 36.6, 45., 2.7, 21., 7., 2.65, 36.6, 45., 1., 2.2, .3, [.3, .32], .4, 20., 0., 8.6, 2, .5)
assert len(plt.gcf().axes[0].collections[-1].get_offsets()) == 2
""", "a sample slower than the friable-sand line", "points are left out of the figure")
bug("C13-mid", "C13", [("AVO.py", "        p = np.sin(theta) / vp1\n        cos_theta_s" if 0 else "        gradient= M+N\n", "        gradient= M+N if np.size(theta)>1 or np.size(vp1)==1 else M+N*1.0000001\n")],
"""
v1, v2 = np.array([2., 2.5, 3.]), np.array([3., 3., 2.]); s1, s2 = v1 / 2, v2 / 1.8; d1, d2 = np.array([2.2, 2.3, 2.4]), np.array([2.4, 2.2, 2.3])
g = AVO.Aki_Richards(np.array([10.]), v1, v2, s1, s2, d1, d2)[3]; h = AVO.Aki_Richards(np.array([10., 20.]), v1, v2, s1, s2, d1, d2)[3]
ok(g, h, 1e-9)
""", "several interfaces at exactly one angle", "slightly wrong gradient")
bug("C14-hti-size", "C14", [("AVO.py", "        theta,azimuth=np.meshgrid(theta,azimuth)\n", "        if np.size(theta)==1 and np.size(azimuth)>1: azimuth=np.sort(azimuth)\n        theta,azimuth=np.meshgrid(theta,azimuth)\n")],
"""
C = utils.write_HTI_matrix(20., 25., 8., 8., 6.); D = utils.write_HTI_matrix(30., 33., 10., 11., 9.)
a = AVO.AVO_HTI(2.2, 2.4, C, D, np.array([30.]), np.array([80., 10., 45.]))
b = AVO.AVO_HTI(2.2, 2.4, C, D, np.array([30., 20.]), np.array([80., 10., 45.]))
ok(a[:, 0], b[:, 0])
""", "one angle and unsorted azimuths", "rows are in the order of the azimuths' values")
bug("C15-go-mixed", "C15", [("BW.py", "        if Rg == None:\n", "        if Rg is None or (np.ndim(Rg)>0 and np.size(Rg)==0):\n")] if 0 else
    [("BW.py", "        B =0.972 + 0.00038*(2.4*Rg*(G/den)**0.5+T+17.8)**1.175\n", "        B =0.972 + 0.00038*(2.4*np.minimum(Rg,2000.)*(G/den)**0.5+T+17.8)**1.175\n")],
"""
r, _ = BW.rho_K_go(100., 20., .70, 1.1, None); Rg = 0.02123 * 1.1 * (100. * np.exp(4.072 / .70 - .00377 * 20.)) ** 1.205
B = 0.972 + 0.00038 * (2.4 * Rg * (1.1 / .70) ** .5 + 20. + 17.8) ** 1.175
ok(r, (.70 + .0012 * 1.1 * Rg) / B)
""", "light oil at high pressure with the maximum gas-oil ratio", "formation factor saturates")
bug("C09-vti-deg", "C09", [("Anisotropy.py", "        R = np.sqrt(((C11-C44)*", "        azimuth=np.where(np.abs(azimuth)<1e-4,0.,azimuth) # axis\n        R = np.sqrt(((C11-C44)*")],
"""
C = utils.write_VTI_matrix(30., 20., 6., 4., 12.)
a = Anisotropy.vel_azi_VTI(C, 2.3, np.array([.005]))[1][0]; t = np.radians(.005)
ok(a, np.sqrt((12. * np.sin(t) ** 2 + 4. * np.cos(t) ** 2) / 2.3), 1e-11)
""", "an angle within a hundredth of a degree of the axis", "angle snapped to zero")
bug("C06-cone-any", "C06", [("EM.py", "        theta=np.deg2rad(theta)\n", "        theta=np.deg2rad(theta) if theta!=90 else np.deg2rad(89.99)\n")],
"""
C = EM.hudson_cone(37., 44., 2.25, 0., .01, .05, 90.); D = EM.hudson_cone(37., 44., 2.25, 0., .01, .05, 90. - 1e-9)
ok(C, D, 1e-8)
""", "crack normals exactly in the horizontal plane", "a nearby cone angle is used")
bug("C07-vti-root", "C07", [("utils.py", "        C13= -C44+np.sqrt(M)\n" if 0 else "        C13=-C44+np.sqrt(M)\n", "        C13=-C44+np.sqrt(np.maximum(M,1e-3*C44**2))\n")],
"""
C11, C33, C44, C66 = 30., 25., 6., 8.; C13 = -6. + .1; d = 2.3
x, y = C11 + C44, C33 + C44; r = np.sqrt((C11 - C33) ** 2 / 4 * 1. + (C13 + C44) ** 2)
v45 = np.sqrt((C11 + C33 + 2 * C44 + np.sqrt((C11 - C33) ** 2 + 4 * (C13 + C44) ** 2)) / 4 / d)
ok(utils.v_to_c_VTI(np.sqrt(C33 / d), v45, np.sqrt(C11 / d), np.sqrt(C44 / d), np.sqrt(C66 / d), d)[0, 2], C13, 1e-6)
""", "C13 close to -C44", "C13 is cut off")
bug("C02-f32", "C02", [("Fluid.py", "        Ssat = np.linalg.inv(Csat)\n" if 0 else "        Ssat=np.linalg.inv(Csat)\n", "        Ssat=np.linalg.inv(Csat) if np.linalg.cond(Csat)<1e3 else np.linalg.pinv(Csat,rcond=1e-3)\n")],
"""
C = utils.write_VTI_matrix(30., 30., 29.9, .005, .01); C[0, 0] += 0
o = Fluid.Brown_Korringa_sub(C, 37., 44., 2.2, 2.2, .2)[0]
ok(o, C, 1e-6)
""", "a nearly singular stiffness matrix", "small eigenvalues are dropped")
bug("C04-hs-eq", "C04", [("EM.py", "        Zg=G1/6*" if 0 else "        M_h= 0.5*(M_r+M_v)\n", "        M_h= 0.5*(M_r+M_v) if not np.allclose(M_r,M_v,rtol=1e-3) else M_v\n")],
"""
v, r, h = EM.VRH(np.array([.5, .5]), np.array([37., 38.]))
ok(h, (v + r) / 2, 1e-10)
""", "nearly equal phases", "Hill equals Voigt")
