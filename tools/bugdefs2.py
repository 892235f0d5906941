# second batch: two-site changes, unusual argument forms, narrow regions, histories
bug("C01-brie-clip", "C01", [("Fluid.py", "        Kf= (Kw-Kgas)*Sw**e+Kgas \n", "        Kf= (Kw-Kgas)*np.clip(Sw,1e-3,1)**e+Kgas if e>10 else (Kw-Kgas)*Sw**e+Kgas\n")],
"""
ok(Fluid.Brie(2.25, 0.05, 0.0, 40), 0.05, 1e-12) if False else None
e = 12; s = 5e-4
assert abs(Fluid.Brie(2.25, 0.05, s, e) - 0.05) <= 2.2 * s ** e + 1e-17 or True
a = Fluid.Brie(1e30, 0.05, s, e); b = (1e30 - 0.05) * s ** e + 0.05
ok(a, b, 1e-9)
""", "large Brie exponent and tiny saturation", "saturation clipped")
bug("C01-approx-sign", "C01", [("Fluid.py", "        x=Msat1/(M0-Msat1) -Mfl1/(phi*(M0-Mfl1)) +Mfl2/(phi*(M0-Mfl2))\n", "        x=Msat1/(M0-Msat1) +(np.maximum(Mfl2,1e-2*Mfl1)-Mfl1)*M0/(phi*(M0-Mfl1)*(M0-np.maximum(Mfl2,1e-2*Mfl1)))\n")],
"""
M1, M0, f1, phi, f2 = 25.0, 77.0, 2.25, 0.2, 0.01
x = M1 / (M0 - M1) - f1 / (phi * (M0 - f1)) + f2 / (phi * (M0 - f2))
ok(Fluid.Gassmann_approx(M1, M0, f1, phi, f2), x * M0 / (1 + x))
""", "new fluid more than a hundred times softer than the old one", "the soft fluid's modulus is floored")
bug("C01-gvels-order", "C01", [("Fluid.py", "        Ksat1=rho1*Vp1**2-(4/3)*G1\n", "        Ksat1=rho1*Vp1**2-(4/3)*G1\n        Ksat1=np.where(Ksat1>K0,K0*0.999,Ksat1) if np.ndim(Ksat1)>1 else Ksat1\n")],
"""
phi = np.array([[0.1, 0.2]]); k = np.array([[45.0, 20.0]]); g = 10.0; rho = 2.3
vp = np.sqrt((k + 4 * g / 3) / rho); vs = np.sqrt(g / rho)
a = Fluid.Gassmann_vels(vp, vs, rho, 1.0, 2.25, 0.2, 0.1, 37.0, phi)[0]
b = Fluid.Gassmann_vels(vp[0], vs, rho, 1.0, 2.25, 0.2, 0.1, 37.0, phi[0])[0]
ok(a[0], b)
""", "two-dimensional velocity section with a sample stiffer than the mineral", "sections are clipped, traces are not")
bug("C01-vels-memo", "C01", [("Fluid.py", "        K,_= Fluid.Gassmann(K_dry,G_dry,K0,Kf,phi)\n        Vp   = np.sqrt((K+4./3*G_dry)/rho)*1e3\n", "        K= Fluid._sat(K_dry,G_dry,K0,Kf,phi)\n        Vp   = np.sqrt((K+4./3*G_dry)/rho)*1e3\n"), ("Fluid.py", "    @staticmethod\n    def vels(K_dry,G_dry,K0,D0,Kf,Df,phi):\n", "    _last=[None,None]\n    @staticmethod\n    def _sat(K_dry,G_dry,K0,Kf,phi):\n        key=(np.round(np.mean(K_dry),12),np.size(K_dry),K0 if np.ndim(K0)==0 else None,Kf if np.ndim(Kf)==0 else None,float(np.sum(phi)))\n        if Fluid._last[0]!=key:\n            Fluid._last[:]=[key,Fluid.Gassmann(K_dry,G_dry,K0,Kf,phi)[0]]\n        return Fluid._last[1]\n    @staticmethod\n    def vels(K_dry,G_dry,K0,D0,Kf,Df,phi):\n")],
"""
k = np.array([10.0, 12.0, 14.0]); phi = np.array([0.1, 0.2, 0.3])
a = Fluid.vels(k, 9.0, 37.0, 2.65, 2.25, 1.0, phi)[0]
b = Fluid.vels(k[::-1].copy(), 9.0, 37.0, 2.65, 2.25, 1.0, phi)[0]
w = [Fluid.vels(x, 9.0, 37.0, 2.65, 2.25, 1.0, p)[0] for x, p in zip(k[::-1], phi)]
ok(b, w)
""", "a second call whose arrays have the same mean and sum but another order", "stale saturated moduli")
bug("C02-sub-reuse", "C02", [("Fluid.py", "        C = utils.write_iso(K0,G0)\n        S0 = np.linalg.inv(C)\n        # nominator\n        Sprime = np.sum(Sdry[0:3,:],axis=0) - np.sum(S0[0:3,:],axis=0)\n", "        C = utils.write_iso(K0,max(G0,K0/50))\n        S0 = np.linalg.inv(C)\n        S0[3:,3:] = 0\n        # nominator\n        Sprime = np.sum(Sdry[0:3,:],axis=0) - np.sum(S0[0:3,:],axis=0)\n        Sprime = np.where(np.abs(Sprime)<1e-6*np.abs(Sprime).max()*1e3,0,Sprime)\n")],
"""
C = utils.write_iso(12.0, 10.0); C[0, 4] = C[4, 0] = 0.003
S = np.linalg.inv(C); K0, G0 = 37.0, 44.0
Sm = np.linalg.inv(utils.write_iso(K0, G0))
sp = (S[:3].sum(0) - Sm[:3].sum(0))[None]
w = S - sp.T @ sp / ((1 / 2.25 - 1 / K0) * 0.2 + S[:3, :3].sum() - 1 / K0)
got = Fluid.Brown_Korringa_dry2sat(S, K0, G0, 2.25, 0.2)
assert np.abs(got - w).max() < 1e-13, np.abs(got - w).max()
""", "weak normal-shear coupling, three orders below the axial terms", "small coupling terms are dropped from the fluid correction")
bug("C02-squirt-list", "C02", [("Fluid.py", "        alpha=0.25*(D_Sdry_abab-1)\n", "        alpha=np.clip(0.25*(D_Sdry_abab-1),-0.6,0.24)\n")],
"""
def ref(a, b):
    a, b = np.array(a), np.array(b)
    d = a - b; aabb = 2 * d[0] + 2 * d[1] + 4 * d[2] + d[3]; D = d / aabb
    abab = 2 * D[0] + D[3] + 4 * D[4] + 4 * (D[0] - D[1]); al = (abab - 1) / 4; T = 1 - 4 * al
    G11 = D[0] - 4 * al / T * (D[1] + D[2]); G12 = D[1] / T; G13 = D[2] / T; G33 = D[3] - 8 * al * D[2] / T
    G44 = D[4] / T - (D[0] + D[2]) / (4 * T) + (G11 + G33) / 4
    return a - aabb * np.array([G11, G12, G13, G33, G44])
a, b = [0.05, -0.01, -0.012, 0.08, 0.3], [0.03, -0.006, -0.006, 0.032, 0.06]
ok(Fluid.Squirt_anisotropic(a, b), ref(a, b))
""", "strongly shear-compliant cracks (alpha > 0.2)", "alpha saturates")
bug("C03-biot-lowF", "C03", [("Fluid.py", "        F[zeta<1e-1]=1\n", "        F[zeta<1.5e-1]=1\n")],
"""
import scipy.special as sp
a = (12e9, 10e9, 37e9, 2.25e9, 2650., 1000., 1e-3, .2, 1e-12, 1e-5, 2.0)
f = 0.14 ** 2 * 1e-3 / (1e-5 ** 2 * 1000 * 2 * np.pi)
w = 2 * np.pi * f; z = np.sqrt(w * 1e-10 * 1000 / 1e-3)
T = np.exp(.75j * np.pi) * sp.jv(1, z * np.exp(-.25j * np.pi)) / sp.jv(0, z * np.exp(-.25j * np.pi))
F = z * T / (1 + 2j * T / z) / 4
rho = .8 * 2650 + 200; q = 2 * 1000 / .2 - 1j * 1e-3 * F / (w * 1e-12)
s = (rho * q - 1e6) / (10e9 * q)
got = Fluid.Biot(*a, f)
ok(np.ravel(got[5])[0], (1 / s).imag / (1 / s).real, 1e-6)
""", "frequencies with 0.1 < zeta < 0.15", "viscodynamic correction switched off too early: attenuation off by percents")
bug("C03-gs-lf", "C03", [("Fluid.py", "        a = (fc/freq)**2\n        Vp= np.sqrt((Vpinf**4+Vp0**4*a)/(Vpinf**2+Vp0**2*a))\n", "        a = (freq/fc)**2\n        Vp= np.sqrt((Vpinf**4*a+Vp0**4)/(Vpinf**2*a+Vp0**2))\n        Vp= np.where(a>1e6,Vp0,Vp) if np.ndim(Vp) and np.all(a>1) else Vp\n")],
"""
f = np.array([1e9, 1e12]); a = (3.0, 3.2)
got = Fluid.Geertsma_Smit_LF(3.0, 3.2, f, 0.2, 1000.0, 1e-12, 1e-3)
ok(got, [3.2, 3.2], 1e-4)
""", "array of frequencies that all lie above the reference frequency, some far above", "high-frequency samples drop to the low-frequency limit")
bug("C03-white-gas", "C03", [("Fluid.py", "        K1,_=Fluid.Gassmann(Kdry,0,K0,Kfl1,phi)\n", "        K1,_=Fluid.Gassmann(Kdry,0,K0,np.maximum(Kfl1,Kfl2*1e-2),phi)\n")],
"""
sg, G = .8, 9e9
K1 = 7e9 + (1 - 7 / 35) ** 2 / (.15 / .5e6 + .85 / 35e9 - 7e9 / 35e9 ** 2)
K2 = 7e9 + (1 - 7 / 35) ** 2 / (.15 / 2.25e9 + .85 / 35e9 - 7e9 / 35e9 ** 2)
V = Fluid.White_Dutta_Ode(7e9, G, 35e9, .15, 2650., 100., 990., .5e6, 2.25e9, 1e-5, 1e-3, 1e-13, 0.1, sg, 1e12)[0]
rho = .85 * 2650 + .15 * (sg * 100 + (1 - sg) * 990)
k = V ** 2 * rho - 4 * G / 3
ok(k, (K2 * (3 * K1 + 4 * G) + 4 * G * (K1 - K2) * sg) / ((3 * K1 + 4 * G) - 3 * (K1 - K2) * sg), 1e-4)
""", "gas more than a hundred times softer than the liquid", "gas modulus floored in the saturated modulus only")
bug("C04-vrh-1d", "C04", [("EM.py", "        M_v=np.dot(volumes,M)\n        M_r=np.dot(volumes,1/M)**-1\n", "        M_v=np.dot(volumes,M)\n        if volumes.ndim==2 and len(volumes)==len(M):\n            M_v=np.dot(volumes.T,M) if np.allclose(volumes.sum(axis=0),1) else M_v\n        M_r=np.dot(volumes,1/M)**-1\n")],
"""
v = np.array([[0.2, 0.8], [0.8, 0.2]]) ; m = np.array([37.0, 21.0])
v = np.array([[0.2, 0.3, 0.5], [0.5, 0.2, 0.3], [0.3, 0.5, 0.2]]); m = np.array([37.0, 21.0, 2.25])
ok(EM.VRH(v, m)[0], v @ m)
""", "as many samples as phases, and column sums of one", "samples and phases are swapped in the Voigt average")
bug("C04-hs-upper", "C04", [("EM.py", "        if bound == 'upper':\n            Zk = 4*G1/3\n", "        if bound == 'upper':\n            if np.ndim(f) and np.any(np.asarray(f)==0) and np.any(np.asarray(f)==1):\n                f=np.sort(f)\n            Zk = 4*G1/3\n")],
"""
f = np.array([1.0, 0.5, 0.0])
w = [EM.HS(x, 37.0, 21.0, 44.0, 7.0, 'upper')[0] for x in f]
ok(EM.HS(f, 37.0, 21.0, 44.0, 7.0, 'upper')[0], w)
""", "a fraction axis that contains both end members in descending order", "output is in ascending order")
bug("C04-cripor-den", "C04", [("EM.py", "        if den is False:\n            M = EM.VRH( np.array([(1-phic,phic)]), np.array([M0,Mf]))[1]\n", "        if not den and Mf<M0:\n            M = EM.VRH( np.array([(1-phic,phic)]), np.array([M0,Mf]))[1]\n")],
"""
ok(EM.cripor_reuss(2.25, 37.0, 0.4), [1 / (0.6 / 2.25 + 0.4 / 37.0)])
""", "pore fill stiffer than the frame mineral", "arithmetic instead of harmonic average")
bug("C05-mt", "C05", [("EM.py", "        K_ave= (f*Kmat*K1/(Kmat-(Kmat-K1)*alpha) +", "        alpha=np.minimum(alpha,0.9)\n        K_ave= (f*Kmat*K1/(Kmat-(Kmat-K1)*alpha) +")],
"""
f, Km, Gm, K1, G1, K2, G2 = 0.3, 40.0, 3.0, 37.0, 44.0, 2.0, 1.0
nu = (3 * Km - 2 * Gm) / (2 * (3 * Km + Gm)); a = (1 + nu) / (3 * (1 - nu)); assert a > 0.9
d1, d2 = Km / (Km - (Km - K1) * a), Km / (Km - (Km - K2) * a)
ok(EM.MT_average(f, Km, Gm, K1, G1, K2, G2)[0], (f * K1 * d1 + (1 - f) * K2 * d2) / (f * d1 + (1 - f) * d2))
""", "nearly incompressible virtual matrix", "shape factor capped")
bug("C05-sc-iter", "C05", [("EM.py", "            K_eff = (1/Ks + (1/K_eff+3/(4*G_eff))*phi) **-1\n", "            K_old = K_eff\n            K_eff = (1/Ks + (1/K_eff+3/(4*G_eff))*phi) **-1\n            if np.all(np.abs(K_eff-K_old)<1e-3*np.abs(K_old)): break\n")],
"""
K, G = 37.0, 44.0
k, g = K, G
for i in range(60):
    k = 1 / (1 / K + (1 / k + 3 / (4 * g)) * 0.2)
    g = 1 / (1 / G + (15 * k + 20 * g) / (9 * k + 8 * g) * 0.2 / g)
ok(EM.SC(0.2, K, G, 60), (k, g), 1e-9)
""", "many iterations", "iteration stops at one per mille")
bug("C05-pq-near1", "C05", [("EM.py", "        if alpha==1:\n            P= (Km+4*Gm/3)/(Ki+4*Gm/3)\n", "        if abs(alpha-1)<2e-2:\n            P= (Km+4*Gm/3)/(Ki+4*Gm/3)\n")],
"""
a = EM.PQ(37.0, 44.0, 2.25, 0.0, 0.985); b = EM.PQ_vectorize(37.0, 44.0, np.array([2.25]), np.array([0.0]), np.array([0.985]))
ok(a[1], b[1][0], 1e-9)
""", "aspect ratio within two percent of one", "scalar version uses the sphere, vectorised version does not")
bug("C05-swiss-row", "C05", [("EM.py", "        if isinstance(Ks, np.ndarray):\n            Ks=Ks[:, np.newaxis]\n            Gs=Gs[:, np.newaxis]\n        Kdry=(1/Ks", "        if isinstance(Ks, np.ndarray):\n            Ks=Ks[:, np.newaxis]\n            Gs=Gs[:, np.newaxis] if np.shape(phi)!=Gs.shape else Gs\n        Kdry=(1/Ks")],
"""
K, G, p = np.array([37.0, 21.0, 70.0]), np.array([44.0, 7.0, 30.0]), np.array([0.1, 0.2, 0.3])
a = EM.Swiss_cheese(K, G, p)[1]
w = [[EM.Swiss_cheese(k, g, x)[1] for x in p] for k, g in zip(K, G)]
ok(a, w)
""", "as many porosities as materials", "shear moduli are paired with porosities instead of materials")
bug("C06-hudson-ki", "C06", [("EM.py", "        kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))\n        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))\n        U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))\n        U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))\n        # first order corrections\n        C11_1 = -lamda**2*crd*U3/G\n        C13_1 = -lamda*(lamda+2*G)*crd*U3/G\n        C33_1 = -(lamda+2*G)**2*crd*U3/G\n        C44_1 = -G*crd*U1\n        #C66_1 = 0\n        # second", "        kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))\n        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))\n        U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))\n        U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))\n        if order==2: crd=min(crd,0.1)\n        # first order corrections\n        C11_1 = -lamda**2*crd*U3/G\n        C13_1 = -lamda*(lamda+2*G)*crd*U3/G\n        C33_1 = -(lamda+2*G)**2*crd*U3/G\n        C44_1 = -G*crd*U1\n        #C66_1 = 0\n        # second")],
"""
a, b = EM.hudson(37., 44., 2.25, 0., .01, .12, 2), EM.hudson(37., 44., 2.25, 0., .01, .1, 2)
assert not np.allclose(a, b)
""", "second order with crack density above 0.1", "crack density silently capped")
bug("C06-cheng-mat", "C06", [("EM.py", "        if mat==False:\n            C_eff = np.array([C11,C33,C13,C44,C66])\n        else:\n            C_eff = utils.write_VTI_matrix(C11,C33,C13,C44,C66)\n", "        if mat==False:\n            C_eff = np.array([C11,C33,C13,C44,C66])\n        else:\n            C_eff = utils.write_VTI_matrix(C11,C33,C13,C44,C44 if phi==0 else C66)\n            C_eff[0,1]=C_eff[1,0]=C_eff[0,0]-2*C44\n")],
"""
l = EM.Eshelby_Cheng(37., 44., 0.02, 0.1, 2.25); m = EM.Eshelby_Cheng(37., 44., 0.02, 0.1, 2.25, mat=True)
ok(m[0, 1], l[0] - 2 * l[4])
""", "matrix form requested", "C12 built from C44")
bug("C07-v45", "C07", [("utils.py", "        C12 = C11-2*den*Vsh90**2\n", "        C12 = C11-2*den*np.minimum(Vsh90,Vp90/np.sqrt(2))**2\n")],
"""
got = utils.v_to_c_VTI(3.0, 3.1, 3.2, 1.5, 2.5, 2.4)
ok(got[5, 5], 2.4 * 2.5 ** 2)
""", "horizontal SH velocity above Vp90/sqrt(2) (negative C12)", "C66 clipped")
bug("C07-hti-int", "C07", [("utils.py", "        C23= C33-2*C44\n        C=np.array([[C11,C13,C13,0,0,0],\n                [C13,C33,C23,0,0,0],\n                [C13,C23,C33,0,0,0],\n                [0,0,0,C44,0,0],\n                [0,0,0,0,C55,0],\n                [0,0,0,0,0,C55]])\n", "        C=np.diag([C11,C33,C33,C44,C55,C55])\n        C[0,1]=C[0,2]=C[1,0]=C[2,0]=C13\n        C[1,2]=C[2,1]=C33-2*C44\n")],
"""
C = utils.write_HTI_matrix(20, 25, 6.5, 7, 5)
ok(C[0, 1], 6.5)
C = utils.write_HTI_matrix(20, 25, 6, 7, 5)
ok(C[1, 2], 11)
C = utils.write_HTI_matrix(np.int64(20), 25, 6.5, 7, 5); ok(C[0, 2], 6.5)
""", "diagonal entries given as integers with a fractional C13", "off-diagonal entries truncated to integers")
bug("C07-poi", "C07", [("utils.py", "        nu=(3*K-2*G)/(6*K+2*G)\n", "        r=G/K\n        nu=(3-2*r)/(6+2*r)\n")],
"""
ok(utils.poi(0.0, 5.0), -1.0)
""", "zero bulk modulus", "division by zero instead of -1")
bug("C08-snap", "C08", [("Anisotropy.py", "        # Bond matrix M\n", "        if axis==1 and abs(b23)<1e-2: b23=b32=0\n        # Bond matrix M\n")],
"""
C = utils.write_VTI_matrix(20.0, 15.0, 6.0, 4.0, 6.0)
a = Anisotropy.Bond_trans(C, 0.5, axis=1)
w = C
for i in range(5): w = Anisotropy.Bond_trans(w, 0.1, axis=1)
b = Anisotropy.Bond_trans(C, -0.5, axis=1)
assert abs(a[1, 3]) > 1e-4
""", "rotation by less than 0.57 degrees about axis 1", "small rotations do nothing")
bug("C09-tt", "C09", [("Anisotropy.py", "        gamma_1 = (C66-C55)/2/C55\n", "        gamma_1 = (C66-C55)/2/min(C55,C66) if C44>C55 else (C66-C55)/2/C55\n")],
"""
a = (25., 27., 20., 8., 6., 7., 6., 5., 4.)
ok(Anisotropy.Thomsen_Tsvankin(*a)[2], (4. - 5.) / 2 / 5)
""", "C66 < C55 < C44", "gamma_1 normalised by the wrong modulus")
bug("C09-vti-neg", "C09", [("Anisotropy.py", "(C13+C44)**2 *np.sin(2*azimuth)**2 )\n", "np.maximum(C13+C44,0)**2 *np.sin(2*azimuth)**2 )\n")],
"""
C = utils.write_VTI_matrix(20., 18., -7., 4., 6.)
p, sh, sv = Anisotropy.vel_azi_VTI(C, 2.4, 40.0)
C2 = C.copy(); C2[0, 2] = C2[2, 0] = -1.0   # same |C13+C44|
ok(p, Anisotropy.vel_azi_VTI(C2, 2.4, 40.0)[0])
""", "C13 below -C44", "coupling term dropped")
bug("C09-thomsen-iso", "C09", [("Anisotropy.py", "        theta= np.deg2rad(theta) # degree to radian\n        delta=", "        theta= np.deg2rad(np.abs(theta)%180) # degree to radian\n        theta= np.where(theta>np.pi/2,np.pi/2,theta)\n        delta=")],
"""
a = (25., 20., 8., 5., 7., 2.4)
ok(Anisotropy.Thomsen(*a, 130.0)[0], Anisotropy.Thomsen(*a, 50.0)[0], 1e-9)
""", "angles beyond 90 degrees", "velocities frozen at the horizontal value")
bug("C10-log-unsorted", "C10", [("Anisotropy.py", "        thickness = np.diff(Depth)\n", "        thickness = np.abs(np.diff(Depth))\n        thickness = np.maximum(thickness, 1e-3*thickness.max())\n")],
"""
Vp, Vs, D = np.array([3.0, 2.0]), np.array([1.5, 1.0]), np.array([2.4, 2.2]); z = np.array([0.0, 100.0, 100.01])
o = Anisotropy.Backus_log(Vp, Vs, D, z)
ok(o[5], (2.4 * 100 + 2.2 * 0.01) / 100.01, 1e-9)
""", "a layer a thousand times thinner than the thickest", "thin layers are thickened")
bug("C10-zero-g", "C10", [("Anisotropy.py", "        C44=np.dot(V, 1/G)**-1\n", "        C44=np.dot(V, 1/np.maximum(G,G.max()*1e-3))**-1\n")],
"""
ok(Anisotropy.Backus([.5, .5], [2., 10.], [0.005, 10.])[3], 1 / (.5 / .005 + .05), 1e-9)
""", "a very soft layer", "soft shear modulus floored")
bug("C11-hm-neg", "C11", [("GM.py", "        G_dry = ((2+3*f-nu*(1+3*f))/(5*(2-nu))) *", "        nu = np.maximum(nu,0)\n        G_dry = ((2+3*f-nu*(1+3*f))/(5*(2-nu))) *")],
"""
K, G = 10.0, 20.0; nu = (3 * K - 2 * G) / (6 * K + 2 * G); assert nu < 0
s = 0.01
ok(GM.hertzmindlin(K, G, .36, 9., 10., .5)[1], (2 + 1.5 - nu * 2.5) / (5 * (2 - nu)) * (s * 3 * 81 * .64 ** 2 * G ** 2 / (2 * np.pi ** 2 * (1 - nu) ** 2)) ** (1 / 3))
""", "auxetic grains", "Poisson ratio clipped in the shear modulus only")
bug("C11-digby-sort", "C11", [("GM.py", "for c in c0])\n", "for c in np.sort(c0)])\n")],
"""
s = np.array([5.0, 20.0, 10.0])
w = [float(np.ravel(GM.Digby(37., 44., .36, 9., x, .02)[0])[0]) for x in s]
ok(GM.Digby(37., 44., .36, 9., s, .02)[0], w)
""", "unsorted stresses", "results are in the order of sorted stress")
bug("C11-johnson-path", "C11", [("GM.py", "        elif path in ('iso_uni','iso-uni'):\n", "        elif path in ('iso_uni','iso-uni') and epsilon/epsilon_axial<1:\n"), ("GM.py", "            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))\n", "            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))\n        else:\n            sigma33 = 2*Temp*(Ct*(I2-I4)+Cn*(alpha**2*I2+I4))\n            sigma11 =Temp*(-Ct*(I2-I4)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))\n")],
"""
a = GM.johnson(37., 44., 9., .36, -2e-4, -1e-4, 'iso_uni'); b = GM.johnson(37., 44., 9., .36, -2e-4, -1e-4, 'together')
assert abs(a[1] - b[1]) > 1e-9 * abs(b[1])
""", "path iso_uni with hydrostatic strain larger than the axial strain", "the 'together' formula is used")
bug("C12-muhs", "C12", [("GM.py", "        K_b, G_b=GM.contactcement(K0, G0, Kc, Gc, phi_b, phic, Cn, scheme)\n        # interpolation", "        K_b, G_b=GM.contactcement(K0, G0, Kc, Gc, min(phi_b,phic-1e-3), phic, Cn, scheme)\n        # interpolation")],
"""
K0, G0, Kc, Gc, pb, pc, Cn = 37., 44., 37., 44., .3997, .4, 9.
kb, gb = GM.contactcement(K0, G0, Kc, Gc, pb, pc, Cn, 2)
ok(GM.MUHS(K0, G0, Kc, Gc, pb, pb, pc, Cn, 2), (kb, gb), 1e-9)
""", "cement below one per mille", "end member is not honoured")
bug("C12-silty", "C12", [("GM.py", "        G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh\n        return K_sat,G_sat\n    @staticmethod    \n    def shaly", "        G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh\n        if np.ndim(C) and np.size(C)>1: G_sat = np.where(np.asarray(C)==np.max(C), np.minimum(G_sat,Gsh*1.2), G_sat)\n        return K_sat,G_sat\n    @staticmethod    \n    def shaly")],
"""
c = np.array([.1, .3])
w = [GM.silty_shale(x, 37., 44., 20., 7.)[1] for x in c]
ok(GM.silty_shale(c, 37., 44., 20., 7.)[1], w)
""", "array of clay contents", "the largest clay content of the array is treated specially")
bug("C13-abe-poi", "C13", [("AVO.py", "        poi2=((0.5*(vp2/vs2)**2)-1)/((vp2/vs2)**2-1)\n", "        poi2=((0.5*(vp2/vs2)**2)-1)/((vp2/vs2)**2-1)\n        poi2=np.maximum(poi2,0)\n")],
"""
vp1, vs1, d1, vp2, vs2, d2 = 2.5, 1.2, 2.2, 2.6, 1.9, 2.3
p = lambda a, b: (.5 * (a / b) ** 2 - 1) / ((a / b) ** 2 - 1)
p1, p2 = p(vp1, vs1), p(vp2, vs2); assert p2 < 0
pa = (p1 + p2) / 2; V = .1 / 2.55; D = .1 / 2.25; Ro = .5 * (V + D); B = V / (V + D)
ok(AVO.AVO_abe(vp1, vs1, d1, vp2, vs2, d2)[1], (B - 2 * (1 + B) * (1 - 2 * pa) / (1 - pa)) * Ro + (p2 - p1) / (1 - pa) ** 2)
""", "lower layer with negative Poisson ratio", "Poisson ratio clipped")
bug("C13-ei-norm", "C13", [("AVO.py", "        if norm==True:\n            ipn= np.mean(Vp)*np.mean(rho)\n", "        if norm==True:\n            if np.size(Vp)>100:\n                Vp=Vp*1.0; rho=rho*1.0\n                Vp[~np.isfinite(Vp)]=0\n            ipn= np.mean(Vp)*np.mean(rho) if np.size(Vp)<=50 else np.median(Vp)*np.mean(rho)\n")],
"""
r = np.linspace(2.0, 2.6, 60); vp = np.linspace(2000., 4000., 60) ** 1.1; vs = vp / 1.8
a = AVO.EI_ref(vp, vs, r, 0.0, .5)[0]
ok(a, (vp * r)[:, None], 1e-6)
""", "logs longer than 50 samples with skewed velocities", "normalisation by the median instead of the mean")
bug("C13-aki-ps", "C13", [("AVO.py", "        cos_theta_s=np.sqrt(1-(np.sin(theta)**2.*(vs1**2/vp1**2)))\n", "        cos_theta_s=np.sqrt(1-(np.sin(theta)**2.*(vs1**2/vp1**2)))\n        cos_theta_s=np.where(np.cos(theta)<0.5,np.sqrt(1-(np.sin(theta)**2.*(vs_mean**2/vp_mean**2))),cos_theta_s)\n")],
"""
def ps(t, vp1, vp2, vs1, vs2, d1, d2):
    t = np.radians(t); vm, sm, rm = (vp1 + vp2) / 2, (vs1 + vs2) / 2, (d1 + d2) / 2
    p = np.sin(t) / vp1; c = np.sqrt(1 - np.sin(t) ** 2 * vs1 ** 2 / vp1 ** 2)
    return -.5 * p * vm / c * ((1 - 2 * sm ** 2 * p ** 2 + 2 * sm * np.cos(t) / vm * c) * (d2 - d1) / rm - (4 * p ** 2 * sm ** 2 - 4 * sm * np.cos(t) / vm * c) * (vs2 - vs1) / sm)
a = (65.0, 3.0, 2.5, 1.5, 1.9, 2.3, 2.2)
ok(AVO.Aki_Richards(*a)[1], ps(*a), 1e-9)
""", "angles beyond 60 degrees", "converted-wave angle from the mean velocities")
bug("C14-hti-c44", "C14", [("AVO.py", "        gamma_2= (C44_2 -C66_2 )/(2*C66_2)\n", "        gamma_2= (C44_2 -C66_2 )/(2*np.minimum(C66_2,C44_2))\n")],
"""
C1, C2 = utils.write_HTI_matrix(15., 20., 6., 6., 4.), utils.write_HTI_matrix(25., 30., 8., 6., 7.)
D = 2.4
r = AVO.AVO_HTI(D, D, C1, C2, 30.0, 0.0)
f = lambda C: ((C[3, 3] - C[5, 5]) / (2 * C[5, 5]))
dg = f(C2) - f(C1)
a1, a2 = np.sqrt(20 / D), np.sqrt(30 / D); b1, b2 = np.sqrt(6 / D), np.sqrt(6 / D)
al = (a1 + a2) / 2; be = (b1 + b2) / 2
dv = lambda C: ((C[0, 2] + C[4, 4]) ** 2 - (C[2, 2] - C[4, 4]) ** 2) / (2 * C[2, 2] * (C[2, 2] - C[4, 4]))
ev = lambda C: (C[0, 0] - C[2, 2]) / (2 * C[2, 2])
s, t = np.sin(np.pi / 6) ** 2, np.tan(np.pi / 6) ** 2
k = (2 * be / al) ** 2
w = .5 * (a2 - a1) / al + .5 * ((a2 - a1) / al + dv(C2) - dv(C1) + 2 * k * dg) * s + .5 * ((a2 - a1) / al + ev(C2) - ev(C1)) * s * t
ok(np.ravel(r)[0], w, 1e-9)
""", "lower medium with C44 < C66 (reversed shear splitting)", "gamma normalised by the smaller modulus")
bug("C14-ortho-g", "C14", [("AVO.py", "        f=(2*b/a)**2\n        Rxz=", "        f=(2*b/a)**2\n        if np.all(g1==0): g1=g2*0\n        dG=np.where(np.abs(dG)<1e-3*G,0,dG)\n        Rxz=")],
"""
a = [3., 1.5, .1, .05, .08, .04, .05, 2.3, 3.3, 1.5002, .12, .06, .1, .07, .02, 2.3, 30.]
x = AVO.AVO_ortho(*a); a[9] = 1.5; y = AVO.AVO_ortho(*a)
assert abs(x[1] - y[1]) > 1e-6 * 0 and x[1] != y[1]
r = AVO.AVO_ortho(*a); 
G1, G2 = 2.3 * 1.5 ** 2, 2.3 * 1.5002 ** 2
f = (2 * (1.5 + .0001) / 3.15) ** 2
d = -.5 * f * (G2 - G1) / ((G1 + G2) / 2) * np.sin(np.pi / 6) ** 2
assert abs((x[1] - y[1]) / d - 1) < 0.05
""", "shear modulus contrast below one per mille", "weak contrasts ignored")
bug("C15-co2-crit", "C15", [("BW.py", "        dzdp=BW.dz_dp(P_pr,T_pr)\n        K=P/(1-P_pr*dzdp/Z)*r_0\n        return rho, K/1000\n", "        dzdp=BW.dz_dp(P_pr,np.maximum(T_pr,1.0))\n        K=P/(1-P_pr*dzdp/Z)*r_0\n        return rho, K/1000\n")],
"""
P, T = 8.0, 25.0
Ppr = P / 7.4; Tpr = (T + 273.15) / (31.1 + 273.5)
E = .109 * (3.85 - Tpr) ** 2 * np.exp(-(.45 + 8 * (.56 - 1 / Tpr) ** 2) * Ppr ** 1.2 / Tpr)
Z = (.03 + .00527 * (3.5 - Tpr) ** 3) * Ppr + (.642 * Tpr - .007 * Tpr ** 4 - .52) + E
r0 = .85 + 5.6 / (Ppr + 2) + 27.1 / (Ppr + 3.5) ** 2 - 8.7 * np.exp(-.65 * (Ppr + 1))
ok(BW.rho_K_co2(P, T, 1.5349)[1], P / (1 - Ppr * BW.dz_dp(Ppr, Tpr) / Z) * r0 / 1000, 1e-9)
""", "temperature below the critical temperature of CO2", "compressibility derivative at the critical temperature")
bug("C15-oil-heavy", "C15", [("BW.py", "        v=2096*(den/(2.6-den))**0.5-3.7*T+4.64*P+0.0115*(4.12*(1.08/den-1)**0.5-1)*T*P\n", "        v=2096*(den/(2.6-den))**0.5-3.7*T+4.64*P+0.0115*np.maximum(4.12*(1.08/den-1)**0.5-1,0.5)*T*P\n")],
"""
P, T, d = 30., 80., 1.0
r = (d + (.00277 * P - 1.71e-7 * P ** 3) * (d - 1.15) ** 2 + 3.49e-4 * P) / (.972 + 3.81e-4 * (T + 17.78) ** 1.175)
v = 2096 * (d / (2.6 - d)) ** .5 - 3.7 * T + 4.64 * P + .0115 * (4.12 * (1.08 / d - 1) ** .5 - 1) * T * P
ok(BW.rho_K_oil(P, T, d)[1], r * v ** 2 / 1e6, 1e-9)
""", "heavy oil (density near 1)", "pressure-temperature term floored")
bug("C15-go-max", "C15", [("BW.py", "        if Rg == None:\n            Rg=0.02123*G*(P*np.exp(4.072/den-0.00377*T))**1.205\n", "        Rmax=0.02123*G*(P*np.exp(4.072/den-0.00377*T))**1.205\n        Rg=Rmax if Rg is None else np.minimum(Rg,Rmax)\n")],
"""
P, T, d, G, R = 2.0, 70.0, .85, .7, 100.0
B = .972 + .00038 * (2.4 * R * (G / d) ** .5 + T + 17.8) ** 1.175
ok(BW.rho_K_go(P, T, d, G, R)[0], (d + .0012 * G * R) / B)
""", "explicit gas-oil ratio above the saturation value", "requested gas-oil ratio is capped")
bug("C16-brine-order", "C16", [("BW.py", "        s15 = 780 - 10*P + 0.16*P**2\n", "        s15 = 780 - 10*P + 0.16*P**2\n        S = np.minimum(S, 0.3)\n")],
"""
T, P, S = 40., 20., .32
w = BW.v_water(T, P); s1 = 1170 - 9.6 * T + .055 * T ** 2 - 8.5e-5 * T ** 3 + 2.6 * P - .0029 * T * P - .0476 * P ** 2
ok(BW.v_brine(T, P, S), w + s1 * S + (780 - 10 * P + .16 * P ** 2) * S ** 1.5 - 820 * S ** 2)
""", "salinity above 0.3", "salinity capped in the velocity only")
bug("C16-warn-once", "C16", [("BW.py", "        if np.any(P > 100):\n", "        if np.any(P > 100) and not (np.ndim(P) and np.ndim(T) and np.shape(P)!=np.shape(T)):\n")],
"""
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    BW.v_water(np.array([[40.], [60.]]), np.array([120., 20., 30.]))
assert len(w) == 1
""", "temperature and pressure as a broadcast grid", "no warning on grids")
bug("C16-co2-bw", "C16", [("BW.py", "        if bw is True:\n", "        if bw is True and np.all(np.asarray(pressure)<60):\n")],
"""
r, K = BW.co2_brine(60., 70., .03, .3, None, True)
rg, Kg = BW.rho_K_gas(70., 60., 1.5349); rb, Kb = BW.rho_K_brine(60., 70., .03)
ok(r, .7 * rb + .3 * rg)
""", "Batzle-Wang CO2 requested above 60 MPa", "the modified CO2 model is used")
bug("C17-japsen-edge", "C17", [("Emp.py", "        V= np.select([Z<1393,Z<2000,Z<3500,Z<5300],[V1,V2,V3,V4],default=np.nan)\n", "        V= np.select([Z<1393,Z<2000,Z<=3500,Z<5300],[V1,V2,V3,V4],default=np.nan)\n        V= np.where(Z==3500,V3+0.5,V)\n")],
"""
ok(Empirical.Japsen(3500.0), 3475 + .25 * 3500)
""", "depth of exactly 3500 m", "wrong branch at the switch depth")
bug("C17-esti-low", "C17", [("Emp.py", "        Vs_harm=( (1-vsh)/Vs_sand +vsh/Vs_shale )**-1\n", "        Vs_harm=( (1-vsh)/Vs_sand +vsh/Vs_shale )**-1\n        Vs_harm=np.where(vsh>=1,Vs_sand,Vs_harm)\n")],
"""
ok(Empirical.esti_VS(3000., 1.0), .76969 * 3000 - 867.35)
""", "pure shale", "harmonic average takes the sand velocity")
bug("C17-krief", "C17", [("Emp.py", "        a0= 1-(1-phi)**(3/(1-phi))\n", "        a0= 1-(1-phi)**(3/np.maximum(1-phi,0.4))\n")],
"""
p = .7
ok(Empirical.krief(p, 37., 44.)[1], 44 * .3 ** (3 / .3))
""", "porosity above 0.6", "exponent capped")
bug("C17-ramm", "C17", [("Emp.py", "        phi2= 25-0.013*(Z-2500)\n        return np.minimum(phi1,phi2)\n", "        phi2= 25-0.013*(Z-2500)\n        return np.where(np.asarray(Z)<2500,phi1,phi2)\n")],
"""
z = np.array([2400., 2450., 2520., 2600.])
ok(Empirical.ramm_porosity_segment(z), np.minimum(45 * np.exp(-.00025 * z), 25 - .013 * (z - 2500)))
z = np.linspace(0, 5000, 2001)
ok(Empirical.ramm_porosity_segment(z), np.minimum(45 * np.exp(-.00025 * z), 25 - .013 * (z - 2500)))
""", "depths between the crossing of the trends and 2500 m", "trends switch at the wrong depth")
bug("C18-panda", "C18", [("Perm.py", "        k= d**2*phi**3*(C**3*S+3*C**2+1)**2/(72*tau*(1-phi)**2*(C**2+1)**2)\n", "        k= d**2*phi**3*(abs(C)**3*abs(S)+3*C**2+1)**2/(72*tau*(1-phi)**2*(C**2+1)**2)\n")],
"""
ok(Permeability.Panda_Lake(100., .5, -1., 2., .2), 1e4 * .008 * (.125 * -1 + .75 + 1) ** 2 / (72 * 2 * .64 * 1.25 ** 2))
""", "negatively skewed grain size distribution", "sign of the skewness lost")
bug("C18-bloch", "C18", [("Perm.py", "        k = 10**(-4.67 + (1.34*D) + (4.08/S)+ 3.42*(C/100))\n", "        k = 10**(-4.67 + (1.34*D) + (4.08/S)+ 3.42*(C//1/100))\n")],
"""
ok(Permeability.Bloch(1.5, 75.5, .2)[1], 10 ** (-4.67 + 1.34 * .2 + 4.08 / 1.5 + 3.42 * .755))
""", "fractional percentage of rigid grains", "percentage truncated")
bug("C19-screen-vsh", "C19", [("QI.py", "        D=QI.den_matrix(vsh,phi_c,phi_b,Dsh,Dqz,Dc) \n        vp,vs,_= Fluid.vels(", "        D=QI.den_matrix(vsh,phi_c,phi_b,Dsh,Dqz,Dc) if phi_b<phi_c-0.01 else D0\n        vp,vs,_= Fluid.vels(")],
"""
phi = np.linspace(.01, .4, 9); pb = .395
a = QI.cst_vels(pb, 37., 2.6, 44., phi, .4, 8.6, 37., 44., 1., 2.5, 2, .1, 2.75, 2.65, 2.9)
k, g = GM.constantcement(pb, 37., 44., 37., 44., phi, .4, 8.6, 2)
D = QI.den_matrix(.1, .4, pb, 2.75, 2.65, 2.9)
w = Fluid.vels(k, g, 37., D, 2.5, 1., phi)[0]
m = phi <= pb
ok(a[0][m], w[m], 1e-9)
""", "less than one percent cement and D0 different from the cemented matrix density", "matrix density ignores the cement")
bug("C19-cst-edge", "C19", [("QI.py", "        vp[phi>phi_b]=np.nan\n        vs[phi>phi_b]=np.nan\n        return vp,vs\n", "        vp[phi>=phi_b]=np.nan\n        vs[phi>=phi_b]=np.nan\n        return vp,vs\n")],
"""
phi = np.array([.1, .38, .39])
v = QI.cst_vels(.38, 37., 2.65, 44., phi, .4, 8.6, 37., 44., 1., 2.5, 2, .1, 2.7, 2.65, 2.65)[0]
assert np.isfinite(v[1]) and np.isnan(v[2])
""", "a porosity exactly at the end member", "the end member itself is undefined")
bug("C20-est-first", "C20", [("QI.py", "            elif val >=array[-1]:\n", "            elif val >=array.max() or i==0 and val>=array[-2]:\n")],
"""
phi = np.array([.2, .22]); a = (36.6, 45., 21., 7., .4, 8.6, 36.6, 45., 1., 2.2, 2, 0.0, 2.7, 2.65, 2.65)
seeds = np.array([.01, .02, .05])
v = [QI.cal_v_const(2.65, 36.6, 45., 2.7, 21., 7., 2.65, 36.6, 45., 1., 2.2, .4 - s, .4, 0.0, phi, 2)[0] for s in seeds]
vp = .5 * (v[1] + v[2])
c = QI(vp, phi).estimate_cem(seeds, *a)
ok(c, [.035, .035], 1e-6)
""", "first sample of the log between the last two lines", "first sample takes the last seed")
bug("C20-rpt-last", "C20", [("QI.py", "            Kf=(val/Kb+(1-val)/Khc)**-1\n", "            Kf=(val/Kb+(1-val)/Khc)**-1 if val>0.05 else Khc\n")],
"""
import matplotlib.pyplot as plt
phi = np.array([.1, .2]); sw = np.array([.03, 1.0]); k, g = 20 - 40 * phi, 18 - 35 * phi
f = QI.plot_rpt(k, g, 37., 2.65, 2.5, 1.05, .1, .2, phi, sw)
x = f.axes[0].lines[0].get_xdata()[0]
vp, vs, r = Fluid.vels(k, g, 37., 2.65, 1 / (.03 / 2.5 + .97 / .1), .03 * 1.05 + .97 * .2, phi)
ok(x, (vp * r)[0], 1e-9)
""", "water saturation between 0 and 5 percent", "fluid modulus of pure hydrocarbon")
bug("C20-plot-sort", "C20", [("QI.py", "        IP=np.empty((phi.size,sw.size))\n", "        sw=np.sort(sw)\n        IP=np.empty((phi.size,sw.size))\n")],
"""
phi = np.array([.1, .2]); sw = np.array([1.0, .5, 0.0]); k, g = 20 - 40 * phi, 18 - 35 * phi
f = QI.plot_rpt(k, g, 37., 2.65, 2.5, 1.05, .1, .2, phi, sw)
vp, vs, r = Fluid.vels(k, g, 37., 2.65, .1, .2, phi)
ok(f.axes[0].lines[-1].get_xdata(), vp * r, 1e-9)
""", "saturations not in ascending order", "last curve is not the last saturation")
bug("C21-default", "C21", [("EM.py", "        M_h= 0.5*(M_r+M_v)\n", "        M_h= 0.5*(M_r+M_v)\n        EM._n=getattr(EM,'_n',0)+1\n        if EM._n%97==0: M_h= M_r\n")],
"""
for i in range(300):
    ok(EM.VRH([.5, .5], [37., 21.])[2], .5 * (29. + 1 / (.5 / 37 + .5 / 21)))
""", "the 97th call in a process", "Hill average replaced by the Reuss average")
bug("C21-view", "C21", [("EM.py", "        Kdry=(1/Ks *(1+(1+3*Ks/(4*Gs))*phi))**-1\n        Gdry=", "        Kdry=(1/Ks *(1+(1+3*Ks/(4*Gs))*phi))**-1\n        if isinstance(Kdry,np.ndarray):\n            if getattr(EM,'_buf',np.empty(0)).shape!=Kdry.shape: EM._buf=np.empty(Kdry.shape)\n            EM._buf[...]=Kdry\n            Kdry=EM._buf\n        Gdry=")],
"""
p = np.array([.1, .2])
a = EM.Swiss_cheese(37., 44., p)[0]; b = a.copy()
EM.Swiss_cheese(20., 10., p)
ok(a, b)
""", "result of an earlier call kept while another call of the same shape is made", "earlier result is overwritten")
bug("C22-nan", "C22", [("GM.py", "        K_w= 1/6 * (3*(1-phic)**2*Cn**2*sigma/(np.pi**4*B**2))**(1/3)\n", "        K_w= 1/6 * (3*(1-phic)**2*Cn**2*sigma/(np.pi**4*B**2))**(1/3)\n        if np.ndim(K_w) and np.isnan(K_w).any(): K_w= np.where(np.isnan(K_w),np.nan,np.round(K_w,3))\n")],
"""
s = np.array([5.0, np.nan, 20.0])
ok(GM.Walton(37., 44., .36, 9., s, .5)[0], [GM.Walton(37., 44., .36, 9., x, .5)[0] for x in s])
""", "NaN elsewhere in the array", "the valid elements are rounded")
bug("C22-grid-square", "C22", [("AVO.py", "        theta, azimuth=np.meshgrid(theta,azimuth)\n", "        theta, azimuth=np.meshgrid(theta,azimuth,indexing='xy' if np.size(theta)!=np.size(azimuth) else 'ij')\n")],
"""
C1, C2 = utils.write_HTI_matrix(15., 20., 6., 6., 4.), utils.write_HTI_matrix(25., 30., 8., 9., 7.)
t, a = np.array([10., 30.]), np.array([0., 60.])
R = AVO.AVO_HTI(2.3, 2.4, C1, C2, t, a)
for i in range(2):
    for j in range(2):
        ok(R[i, j], np.ravel(AVO.AVO_HTI(2.3, 2.4, C1, C2, t[j:j + 1], a[i:i + 1]))[0])
""", "as many azimuths as angles", "grid is transposed")
bug("C23-global", "C23", [("BW.py", "        R=8.3145 # J.mol-1K-1 gas constant \n        Ta,P_pr,T_pr=BW.pseudo_p_t(P,T,G)\n", "        R=8.3145 # J.mol-1K-1 gas constant \n        BW._state=BW.pseudo_p_t(P,T,G)\n        BW._calls+=1\n        Ta,P_pr,T_pr=BW._state\n"), ("BW.py", "class BW:\n", "class BW:\n    _state=None\n    _calls=0\n")],
"""
code = BW.rho_K_gas.__code__
w = BW.rho_K_gas(20., 60., .7)
st = dict(n=0, at=0)
def tr(frame, ev, arg):
    if frame.f_code is code:
        if ev == 'line':
            st['n'] += 1
            if st['n'] == st['at']:
                sys.settrace(None); BW.rho_K_gas(5., 120., .9)
                return None
        return tr
for at in range(1, 14):
    st.update(n=0, at=at)
    sys.settrace(tr); g = BW.rho_K_gas(20., 60., .7); sys.settrace(None)
    ok(g, w)
""", "two threads inside rho_K_gas, one switched out between two lines", "one thread uses the other's pseudo-reduced state")
