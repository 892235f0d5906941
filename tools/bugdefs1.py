R = "(np.asarray)"
bug("C01-gassmann-cache", "C01", [("Fluid.py", "        A=(1-K_dry/K_mat)**2\n", "        # the frame term does not depend on the fluid: keep it between substitutions of the same frame\n        key=(id(K_dry),K_mat)\n        if key not in Fluid._frame:\n            Fluid._frame.clear()\n            Fluid._frame[key]=(1-K_dry/K_mat)**2\n        A=Fluid._frame[key]\n"), ("Fluid.py", "    @staticmethod \n    def Brie(", "    _frame={}\n    @staticmethod \n    def Brie(")],
"""
k = np.array([10.0, 12.0])
Fluid.Gassmann(k, 9.0, 37.0, 2.25, 0.2)
k[:] = [5.0, 6.0]
K, _ = Fluid.Gassmann(k, 9.0, 37.0, 2.25, 0.2)
ok(K, k + (1 - k / 37) ** 2 / (0.2 / 2.25 + 0.8 / 37 - k / 37 ** 2))
""", "second call with the same array object edited in place", "Gassmann returns moduli of the old frame")
bug("C01-sub-stiff", "C01", [("Fluid.py", "        Ksat2= a*K0/(1+a)\n", "        Ksat2= a*K0/(1+a)\n        Ksat2= np.where(Kfl2<Kfl1/20, np.minimum(Ksat2,Ksat1-Kfl1), Ksat2)\n")],
"""
kd, k0, phi = 30.0, 37.0, 0.05
s1 = Fluid.Gassmann(kd, 9.0, k0, 2.25, phi)[0]
s2 = Fluid.Gassmann(kd, 9.0, k0, 0.05, phi)[0]
ok(Fluid.Gassmann_sub(phi, k0, s1, 2.25, 0.05), s2)
""", "light gas replacing brine in a stiff rock", "substitution brine to gas leaves the Gassmann state")
bug("C01-vels-density", "C01", [("Fluid.py", "        rho  = D0*(1-phi)+Df*phi\n", "        rho  = D0*(1-phi)\n        rho += Df*phi\n")],
"""
# integer porosity-free case: arrays of integer mineral density
D0 = np.array([2, 3]); phi = np.array([0, 0]); 
vp, vs, rho = Fluid.vels(np.array([10.0, 12.0]), 9.0, 37.0, D0, 2.25, 1.05, phi)
ok(rho, np.array([2.0, 3.0]))
""", "integer arrays for density and porosity", "vels raises for integer typed arrays")
bug("C02-bk-inplace", "C02", [("Fluid.py", "        Ssat=Sdry-np.dot(Sprime.T,Sprime)/denom\n", "        Ssat=Sdry if phi==0 else np.array(Sdry)\n        Ssat-=np.dot(Sprime.T,Sprime)/denom\n")],
"""
S = np.linalg.inv(utils.write_iso(10.0, 9.0)); S0 = S.copy()
Fluid.Brown_Korringa_dry2sat(S, 37.0, 44.0, 2.25, 0.0)
ok(S, S0)
""", "zero porosity", "the caller's dry compliance is overwritten")
bug("C02-sat2dry-shear", "C02", [("Fluid.py", "        Sprime = np.sum(Ssat[0:3,:],axis=0) - np.sum(S0[0:3,:],axis=0)\n", "        Sprime = np.zeros(6)\n        Sprime[0:3] = np.sum(Ssat[0:3,0:3],axis=0) - np.sum(S0[0:3,0:3],axis=0)\n")],
"""
C = utils.write_VTI_matrix(20.0, 15.0, 6.0, 4.0, 6.0); C[0, 3] = C[3, 0] = 0.7; C[1, 5] = C[5, 1] = -0.4
S = np.linalg.inv(C)
sat = Fluid.Brown_Korringa_dry2sat(S, 37.0, 44.0, 2.25, 0.2)
ok(Fluid.Brown_Korringa_sat2dry(sat, 37.0, 44.0, 2.25, 0.2), S, 1e-6)
""", "monoclinic or triclinic compliance (normal-shear coupling)", "saturating and drying does not return the dry compliance")
bug("C03-white-sg", "C03", [("Fluid.py", "        rho = (1-phi)*rho0+phi*sg*rhofl1+phi*(1-sg)*rhofl2\n", "        rho = (1-phi)*rho0+phi*np.clip(sg,0.01,0.99)*rhofl1+phi*(1-np.clip(sg,0.01,0.99))*rhofl2\n")],
"""
a = (7e9, 9e9, 35e9, .15, 2650., 100., 990., .1e9, 2.25e9, 1e-5, 1e-3, 1e-13, 0.1)
V1, _, K = Fluid.White_Dutta_Ode(*a, 0.002, 50.0)
rho = .85 * 2650 + .15 * (.002 * 100 + .998 * 990)
M = K + 4 * 9e9 / 3; th = np.arctan(M.imag / M.real)
ok(V1, np.sqrt(abs(M) / rho) / np.cos(th / 2), 1e-9)
""", "gas saturation below one percent", "density and velocity wrong for nearly full saturation")
bug("C03-biot-any", "C03", [("Fluid.py", "        F[zeta<1e-1]=1\n", "        if np.any(zeta<1e-1): F[zeta<np.max(zeta)/1e3]=1\n")],
"""
a = (12e9, 10e9, 37e9, 2.25e9, 2650., 1000., 1e-3, .2, 1e-12, 1e-5, 2.0)
f = np.array([1e-3, 1e3, 1e9])
full = Fluid.Biot(*a, f)
for i in range(3):
    one = Fluid.Biot(*a, f[i:i + 1])
    for x, y in zip(full, one):
        ok(x[i:i + 1], y, 1e-9)
""", "array mixing very low and very high frequencies", "low-frequency limit applied to frequencies that are not low")
bug("C04-vrh-sorted", "C04", [("EM.py", "        M_r=np.dot(volumes,1/M)**-1\n        M_h", "        M_r=np.dot(volumes,1/M)**-1\n        if M.ndim==1 and volumes.ndim==1 and M.size>3:\n            # many phases: sum the compliances in ascending order for accuracy\n            M_r=np.dot(volumes,np.sort(1/M))**-1\n        M_h")],
"""
f = [0.1, 0.2, 0.3, 0.4]; m = [2.25, 37.0, 12.0, 76.8]
ok(EM.VRH(f, m)[1], 1 / sum(x / y for x, y in zip(f, m)))
""", "four or more phases not listed in descending modulus order", "Reuss average pairs fractions with the wrong phases")
bug("C04-cripor-clip", "C04", [("EM.py", "        K_dry = K0 * (1-phi/phic)\n", "        K_dry = K0 * (1-np.round(phi/phic,6))\n")],
"""
ok(EM.cripor(37.0, 44.0, 0.1234567, 0.4)[0], 37.0 * (1 - 0.1234567 / 0.4), 1e-9)
""", "porosity ratio with more than six digits", "bulk modulus is quantised")
bug("C05-sc-buffer", "C23", [("EM.py", "        P = np.empty(dim)\n        Q = np.empty(dim)\n        theta = np.empty(dim)\n", "        P = np.empty(dim)\n        Q = np.empty(dim)\n        theta = EM._work.setdefault(dim, np.empty(dim))\n"), ("EM.py", "class EM:\n", "class EM:\n    _work={}\n")],
"""
import threading
K = np.array([37.0, 2.25]); G = np.array([44.0, 0.0])
A1, A2 = np.array([0.1, 0.05]), np.array([0.9, 0.3])
w1, w2 = EM.PQ_vectorize(20.0, 15.0, K, G, A1), EM.PQ_vectorize(20.0, 15.0, K, G, A2)
# run the second call in the middle of the first, as a thread switch would
src = EM.PQ_vectorize.__code__
lines = []
def tr(frame, ev, arg):
    if frame.f_code is src:
        if ev == 'line' and not lines and 'f' in frame.f_locals and False:
            pass
        if ev == 'line':
            tr.n += 1
            if tr.n == tr.at:
                sys.settrace(None); frame.f_trace = None
                EM.PQ_vectorize(20.0, 15.0, K, G, A2)
                return None
        return tr
for at in range(2, 40):
    tr.n, tr.at = 0, at
    sys.settrace(tr)
    got = EM.PQ_vectorize(20.0, 15.0, K, G, A1)
    sys.settrace(None)
    ok(got[0], w1[0]); ok(got[1], w1[1])
""", "two concurrent calls with the same number of inclusions", "geometry factors of one call are computed from the other call's aspect ratios")
bug("C05-dem-tail", "C05", [("EM.py", "        t = np.arange(0, tStop+tInc, tInc)\n", "        t = np.linspace(0, max(tStop,tInc), int(round(max(tStop,tInc)/tInc))+1)\n")],
"""
K, G, t = EM.Berryman_DEM(37.0, 44.0, 2.25, 0.0, 0.1, 0.205)
ok(t, np.arange(0, 0.205 + 0.01, 0.01))
""", "target porosity that is not a multiple of one percent", "the porosity axis is rescaled")
bug("C05-mt-identical", "C05", [("EM.py", "        alpha=(1+possion) / ( 3*(1-possion) )\n        beta", "        alpha=(1+possion) / ( 3*(1-possion) )\n        if np.all(np.asarray(Kmat)==np.asarray(K1)): f=np.minimum(f,0.5)\n        beta")],
"""
f, K, G, K2, G2 = 0.8, 37.0, 44.0, 10.0, 8.0
nu = (3 * K - 2 * G) / (2 * (3 * K + G)); a = (1 + nu) / (3 * (1 - nu))
d1, d2 = K / (K - 0), K / (K - (K - K2) * a)
ok(EM.MT_average(f, K, G, K, G, K2, G2)[0], (f * K * d1 + (1 - f) * K2 * d2) / (f * d1 + (1 - f) * d2))
""", "virtual matrix equal to the first phase and fraction above one half", "average saturates")
bug("C06-ortho-pair", "C06", [("EM.py", "        C23=lamda    +C12_1[0]+C13_1[1]+C13_1[2]\n", "        C23=lamda    +C12_1[0]+C13_1[1]+C13_1[1]*(crd[2]/crd[1] if crd[1] else 0) if np.all(crd[1:]>0) else lamda+C12_1[0]+C13_1[1]+C13_1[2]\n")],
"""
al, cr = np.array([0.01, 0.02, 0.1]), np.array([0.01, 0.03, 0.05])
C = EM.hudson_ortho(37.0, 44.0, 2.25, 0.0, al, cr)
al2 = al[[0, 2, 1]]; cr2 = cr[[0, 2, 1]]
ok(C[1, 2], EM.hudson_ortho(37.0, 44.0, 2.25, 0.0, al2, cr2)[1, 2], 1e-9)
""", "crack sets 2 and 3 with different aspect ratios and a stiff filling", "C23 uses the aspect ratio of the wrong set")
bug("C06-hudson-order2hti", "C06", [("EM.py", "            C_eff = utils.write_HTI_matrix(C33,C11,C13,C66,C44)\n", "            C_eff = utils.write_HTI_matrix(C33,C11,C13,C66,G+C44_1)\n")],
"""
C3 = EM.hudson(37.0, 44.0, 2.25, 0.0, 0.01, 0.05, order=2, axis=3)
C1 = EM.hudson(37.0, 44.0, 2.25, 0.0, 0.01, 0.05, order=2, axis=1)
ok(C1[4, 4], C3[3, 3]); ok(C1[5, 5], C3[3, 3])
""", "second order and axis 1 together", "second-order shear correction missing in the HTI matrix")
bug("C07-vti-compl", "C07", [("utils.py", "        M = 4*den**2*Vp45**4-2*den*Vp45**2*(C11+C33+2*C44)+(C11+C44)*(C33+C44)\n        C13 = -C44+np.sqrt(M)\n", "        M = 4*den**2*Vp45**4-2*den*Vp45**2*(C11+C33+2*C44)+(C11+C44)*(C33+C44)\n        C13 = np.sqrt(M)-C44\n        C13 = np.maximum(C13, 0)\n")],
"""
C = utils.write_VTI_matrix(20.0, 18.0, -1.5, 8.0, 9.0); d = 2.4
a = np.pi / 4
t = (C[0, 0] + C[2, 2] + 2 * C[3, 3]) / 2
R = np.sqrt(((C[0, 0] - C[2, 2]) / 2) ** 2 + (C[0, 2] + C[3, 3]) ** 2)
v45 = np.sqrt((t + R) / 2 / d)
got = utils.v_to_c_VTI(np.sqrt(C[2, 2] / d), v45, np.sqrt(C[0, 0] / d), np.sqrt(C[3, 3] / d), np.sqrt(C[5, 5] / d), d)
ok(got[0, 2], -1.5, 1e-7)
""", "medium with negative C13", "negative C13 is clipped to zero")
bug("C07-mfromv-order", "C07", [("utils.py", "        K=den*1000*(vp**2-4*vs**2/3)\n", "        K=np.abs(den*1000*(vp**2-4*vs**2/3))\n")],
"""
ok(utils.M_from_V(2.0, 2000.0, 1800.0)[0], 2.0 * 1000 * (2000.0 ** 2 - 4 * 1800.0 ** 2 / 3) / 1e9)
""", "auxetic input: Vp^2 < 4/3 Vs^2", "sign of the bulk modulus is lost")
bug("C08-bond-axis", "C08", [("Anisotropy.py", "        theta = np.deg2rad(theta)\n        # axis 3", "        theta = np.deg2rad(np.mod(theta,360) if axis==3 else np.mod(theta,180))\n        # axis 3")],
"""
C = utils.write_VTI_matrix(20.0, 15.0, 6.0, 4.0, 6.0); C[0, 4] = C[4, 0] = 1.0
a = Anisotropy.Bond_trans(C, 200.0, axis=1); b = Anisotropy.Bond_trans(C, 20.0, axis=1)
c = Anisotropy.Bond_trans(b, 180.0, axis=1)
assert not np.allclose(a, b)
""", "rotation about axis 1 by more than 180 degrees of a matrix with normal-shear coupling", "the rotation is by the wrong angle")
bug("C09-hti-fold", "C09", [("Anisotropy.py", "    def vel_azi_HTI(C,Den,azimuth):", "    def vel_azi_HTI(C,Den,azimuth):"), ("Anisotropy.py", "        Vsv= 1/Den * (C55+ (C44-C55)*np.sin(azimuth)**2)\n", "        Vsv= 1/Den * (C55+ (C44-C55)*np.sin(np.minimum(azimuth,np.pi))**2)\n")],
"""
C = utils.write_HTI_matrix(15.0, 20.0, 6.0, 6.0, 4.0)
ok(Anisotropy.vel_azi_HTI(C, 2.4, 250.0)[2], np.sqrt((4.0 + 2.0 * np.sin(np.radians(250.0)) ** 2) / 2.4))
""", "azimuth beyond 180 degrees", "SV velocity frozen beyond 180 degrees")
bug("C09-thomsen-weak", "C09", [("Anisotropy.py", "        delta= ((C13+C44)**2-(C33-C44)**2 )/ (2*C33*(C33-C44))\n", "        delta= ((C13+C44)**2-(C33-C44)**2 )/ (2*C33*(C33-C44))\n        delta= np.where(np.abs(delta)>0.5, (C13+2*C44-C33)/C33, delta)\n")],
"""
C11, C33, C13, C44, C66 = 30.0, 10.0, 9.0, 3.0, 5.0
d = ((C13 + C44) ** 2 - (C33 - C44) ** 2) / (2 * C33 * (C33 - C44))
assert d > 0.5
ok(Anisotropy.Thomsen(C11, C33, C13, C44, C66, 2.4, 20.0)[5], d)
""", "strong anisotropy, |delta| > 0.5", "delta switches to the weak approximation")
bug("C10-backus-merge", "C10", [("Anisotropy.py", "        V=V/np.sum(V) # normalize\n        lamda= np.asanyarray(lamda)\n        G= np.asanyarray(G)\n", "        V=V/np.sum(V) # normalize\n        lamda= np.asanyarray(lamda)\n        G= np.asanyarray(G)\n        if G.ndim==1 and G.size>2:\n            # merge repeated layers\n            G,ind,inv=np.unique(G,return_index=True,return_inverse=True)\n            lamda=lamda[ind]\n            V=np.bincount(inv,weights=V)\n")],
"""
V, l, G = [0.2, 0.3, 0.5], [5.0, 9.0, 7.0], [3.0, 3.0, 6.0]
V, l, G = map(np.array, (V, l, G))
ok(Anisotropy.Backus(V, l, G)[1], 1 / np.dot(V, 1 / (l + 2 * G)))
""", "two layers with the same shear modulus and different lambda", "layers merged although their lambda differs")
bug("C11-walton-f", "C11", [("GM.py", "        G_w= f* G_dry2+(1-f)*G_dry1\n", "        G_w= f* G_dry2+(1-f)*G_dry1 if np.ndim(f)==0 else np.where(np.asarray(f)>=0.5,G_dry2,G_dry1)\n")],
"""
f = np.array([0.0, 0.3, 0.7, 1.0])
w = [GM.Walton(37.0, 44.0, 0.36, 9.0, 10.0, x)[1] for x in f]
ok(GM.Walton(37.0, 44.0, 0.36, 9.0, 10.0, f)[1], w)
""", "array of slip fractions", "intermediate slip fractions snap to the end members")
bug("C12-pcm-cache", "C12", [("GM.py", "            Kcem,Gcem= GM.contactcement(K0, G0,Kc, Gc, phic-v_cem, phic=phic, Cn=Cn, scheme=scheme)\n        #------------------------------------------------\n        # increasing cement model \n        #------------------------------------------------\n        else: \n            Kcem,Gcem= GM.MUHS(K0, G0, Kc,Gc,phic-v_cem, phic-v_ci,phic=phic, Cn=Cn, scheme=scheme)\n        #------------------------------------------------\n        # first HS \n        #------------------------------------------------   \n        if mode", "            Kcem,Gcem= GM.contactcement(K0, G0,Kc, Gc, phic-v_cem, phic=phic, Cn=Cn, scheme=scheme)\n        #------------------------------------------------\n        # increasing cement model \n        #------------------------------------------------\n        else: \n            key=(K0,G0,Kc,Gc,v_cem,v_ci,phic,Cn)\n            if key not in GM._stiff:\n                GM._stiff[key]=GM.MUHS(K0, G0, Kc,Gc,phic-v_cem, phic-v_ci,phic=phic, Cn=Cn, scheme=scheme)\n            Kcem,Gcem= GM._stiff[key]\n        #------------------------------------------------\n        # first HS \n        #------------------------------------------------   \n        if mode"), ("GM.py", "class GM: \n", "class GM: \n    _stiff={}\n")],
"""
a = (0.5, 20.0, 37.0, 44.0, 0.2, 0.4, 0.12, 0.05, 37.0, 44.0, 9.0)
w = GM.pcm(*a, 'stiff', 2, 0.5)
import importlib
g = GM.pcm(*a, 'stiff', 1, 0.5)
assert abs(g[0] - w[0]) > 1e-6 * abs(w[0])
""", "increasing-cement branch called with both schemes in one session", "second scheme gets the first scheme's end member")
bug("C12-vpcm-alpha", "C12", [("GM.py", "        Gp =Gp_stiff*(1-alpha) + Gp_soft *alpha\n", "        Gp =Gp_stiff*(1-alpha) + Gp_soft *np.minimum(alpha,1-1e-3)\n")],
"""
a = (0.5, 20.0, 37.0, 44.0, 0.2, 0.4, 0.02, 0.05, 37.0, 44.0, 9.0)
ok(GM.vpcm(1.0, *a, 2, 0.5)[1], GM.pcm(*a, 'soft', 2, 0.5)[1], 1e-9)
""", "alpha = 1 exactly (fully diluted)", "the soft end member is not honoured")
bug("C12-diluting-nan", "C12", [("GM.py", "        alpha[np.isnan(alpha)]=0\n", "        alpha[np.isnan(alpha)]=0\n        alpha[np.asarray(sigma)>=sigma0*0.999]=0\n")],
"""
ok(GM.diluting(1.0, 20.0, np.array([19.99, 10.0]), 0.2), (1 - np.array([19.99, 10.0]) / 20.0) ** 0.2)
""", "stress within 0.1 percent of the reference", "dilution is cut to zero early")
bug("C13-aki-crit", "C13", [("AVO.py", "        R_pp= Rpp0+ M *np.sin(theta)**2+ N * np.tan(theta)**2\n", "        R_pp= Rpp0+ M *np.sin(theta)**2+ N * np.tan(np.minimum(theta,np.max(np.arcsin(np.minimum(1,vp1/vp2)))))**2\n")],
"""
R = AVO.Aki_Richards(60.0, 2000.0, 3500.0, 1000.0, 1800.0, 2.2, 2.4)[0]
t = np.radians(60.0); vm, sm, rm = 2750.0, 1400.0, 2.3
M = -2 * (sm / vm) ** 2 * (2 * 800 / sm + .2 / rm); N = .5 * 1500 / vm
ok(R, .5 * (.2 / rm + 1500 / vm) + M * np.sin(t) ** 2 + N * np.tan(t) ** 2)
""", "angle beyond the critical angle", "reflectivity frozen beyond the critical angle")
bug("C13-ei-mutate", "C13", [("AVO.py", "            Vs=Vs/np.mean(Vs)\n", "            Vs/=np.mean(Vs)\n")],
"""
vp, vs, r = np.array([2500.0, 3000.0]), np.array([1200.0, 1500.0]), np.array([2.2, 2.3])
s = vs.copy()
AVO.EI_ref(vp, vs, r, 20.0, 0.5)
ok(vs, s)
""", "array logs passed with normalisation on", "the caller's Vs log is normalised in place")
bug("C14-ortho-sign", "C14", [("AVO.py", "        sthe2=np.sin(the)**2\n", "        sthe2=np.where(the<0,0,np.sin(the)**2)\n")],
"""
a = (3., 1.5, .1, .05, .08, .04, .05, 2.3, 3.3, 1.7, .12, .06, .1, .07, .02, 2.4)
ok(AVO.AVO_ortho(*a, -30.0)[0], AVO.AVO_ortho(*a, 30.0)[0])
""", "negative incidence angles", "reflectivity not symmetric in the angle")
bug("C14-hti-grid", "C14", [("AVO.py", "        theta, azimuth=np.meshgrid(theta,azimuth)\n", "        theta, azimuth=np.meshgrid(theta,np.sort(azimuth))\n")],
"""
C1, C2 = utils.write_HTI_matrix(15., 20., 6., 6., 4.), utils.write_HTI_matrix(25., 30., 8., 9., 7.)
az = np.array([60.0, 0.0, 30.0]); th = np.array([10.0, 30.0])
R = AVO.AVO_HTI(2.3, 2.4, C1, C2, th, az)
for i in range(3):
    ok(R[i:i + 1], AVO.AVO_HTI(2.3, 2.4, C1, C2, th, az[i:i + 1]))
""", "azimuths not sorted", "rows are in sorted, not given, azimuth order")
bug("C15-go-rg0", "C15", [("BW.py", "        if Rg == None:\n", "        if not Rg:\n")],
"""
P, T, d, G = 20.0, 70.0, 0.85, 0.7
B = 0.972 + 0.00038 * (T + 17.8) ** 1.175
ok(BW.rho_K_go(P, T, d, G, 0.0)[0], d / B)
""", "explicit gas-oil ratio of zero (dead oil)", "zero GOR replaced by the saturation GOR")
bug("C15-gas-lowT", "C15", [("BW.py", "        Ta=T+273.15\n        P_pr=P/(4.892-0.4048*G)\n", "        Ta=np.maximum(T,0)+273.15\n        P_pr=P/(4.892-0.4048*G)\n")],
"""
ok(BW.pseudo_p_t(10.0, -10.0, 0.7)[0], 263.15)
""", "temperature below zero Celsius", "absolute temperature clipped")
bug("C16-warn-first", "C16", [("BW.py", "        if np.any(P > 100):\n            warnings.warn(", "        if np.ravel(P)[-1] > 100:\n            warnings.warn(")],
"""
warnings.simplefilter('always')
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    BW.v_water(40.0, np.array([120.0, 20.0]))
assert len(w) == 1
""", "a high pressure that is not the last element", "no warning although one pressure is out of range")
bug("C16-co2-endpoint", "C16", [("BW.py", "        if brie_component == None:\n", "        if brie_component == None or np.all(np.asarray(Sco2)<1e-2):\n")],
"""
S = 0.005
r, K = BW.co2_brine(60.0, 20.0, 0.035, S, 3)
rb, Kb = BW.rho_K_brine(60.0, 20.0, 0.035); rc, Kc = BW.rho_K_co2(20.0, 60.0, 1.5349)
ok(K, (Kb - Kc) * (1 - S) ** 3 + Kc)
""", "CO2 saturation below one percent with a Brie exponent", "Wood mixing used instead of Brie")
bug("C17-stpeter-int", "C17", [("Emp.py", "            Vs= 2.83+0.195*Pe-0.741*np.exp(-16*Pe)\n", "            Vs= np.zeros_like(Pe)+2.83+0.195*Pe-0.741*np.exp(np.negative(16*Pe,out=np.zeros_like(Pe)+0*Pe))\n            if np.ndim(Pe): Vs[np.asarray(Pe)>1]=Vs[np.asarray(Pe)>1].max()\n")],
"""
p = np.array([1.2, 1.4, 0.3])
ok(Empirical.empirical_StPeter(p, 2)[1], (2.83 + .195 * p - .741 * np.exp(-16 * p)) * 1000)
""", "several pressures above 100 MPa in one array, sample 2", "velocities above 1 kbar take the array maximum")
bug("C17-hillis-wrap", "C17", [("Emp.py", "        transit= 135.9-20.22*Z/1000\n", "        transit= np.maximum(135.9-20.22*Z/1000, 40)\n")],
"""
ok(Empirical.Hillis(5500.0), 304.8 * 1000 / (135.9 - 20.22 * 5.5))
""", "depth beyond 4.74 km", "trend flattened")
bug("C18-perm-clip", "C18", [("Perm.py", "        k= B*d**2* (phi-phic)**3/(1+phic-phi)**2\n", "        dphi= phi-phic\n        k= B*d**2* abs(dphi)**3/(1-dphi)**2\n")],
"""
ok(Permeability.Kozeny_Carman_Percolation(0.02, 0.03, 250.0, 15.0), 15.0 * 250.0 ** 2 * (-0.01) ** 3 / 1.01 ** 2)
""", "porosity below the percolation threshold", "sign lost below percolation")
bug("C18-bernabe-int", "C18", [("Perm.py", "        phitube = phi - phicrack\n", "        phitube = phi\n        phitube -= phicrack\n")],
"""
p = np.array([0.1, 0.2]); q = p.copy()
Permeability.Bernabe(p, 0.3, 1.0, 2.0)
ok(p, q)
""", "porosity passed as an array", "the caller's porosity is reduced in place")
bug("C19-matrix-vsh", "C19", [("QI.py", "        if vsh==0:\n", "        if vsh<0.02:\n")],
"""
pc, p0, vsh = 0.4, 0.3, 0.01
f = np.array([vsh / .7, (.6 - vsh) / .7, .1 / .7]); M = np.array([15.0, 37.0, 60.0])
ok(QI.matrix_modulus(vsh, pc, p0, 15.0, 37.0, 60.0), [0.5 * (f @ M + 1 / (f @ (1 / M)))])
""", "shale content between 0 and 2 percent", "shale ignored and fractions not normalised")
bug("C19-cst-phi", "C19", [("QI.py", "        vs[phi>phi_b]=np.nan\n        return vp,vs\n", "        vs[phi>phi_b]=np.nan\n        phi[phi>phi_b]=np.nan\n        return vp,vs\n")],
"""
phi = np.linspace(0.01, 0.4, 20); q = phi.copy()
QI.cst_vels(0.38, 37., 2.65, 44., phi, 0.4, 8.6, 37., 44., 1.0, 2.5, 2, 0.1, 2.7, 2.65, 2.65)
ok(phi, q)
""", "porosity axis reused after the call", "the caller's porosity axis is overwritten with NaN")
bug("C20-kde-cache", "C20", [("QI.py", "            (density, grid, bandwidth) = kde2d(self.phi, self.Vs, n=n, limits=None)\n", "            if getattr(self,'_kde',None) is None or self._kde[0]!=n:\n                self._kde=(n,kde2d(self.phi, self.Vs, n=n, limits=None))\n            (density, grid, bandwidth) = self._kde[1]\n")],
"""
import matplotlib.pyplot as plt
r = np.random.RandomState(0)
phi, vp = r.uniform(.1, .35, 80), r.uniform(2500, 4000, 80)
q = QI(vp, phi, Vs=vp / 1.7)
x = np.linspace(0, .4, 5)
q.kde_plot(x, x, x, x, vels='Vs', n=32)
q.Vs = vp / 2.5
f = q.kde_plot(x, x, x, x, vels='Vs', n=32)
g = QI(vp, phi, Vs=vp / 2.5).kde_plot(x, x, x, x, vels='Vs', n=32)
get = lambda f: [c.get_datalim(f.axes[0].transData).bounds if hasattr(c, 'get_datalim') else None for c in f.axes[0].collections][:1]
A = f.axes[0].collections[0]; B = g.axes[0].collections[0]
assert np.allclose(np.asarray(A._coordinates), np.asarray(B._coordinates))
""", "kde_plot twice on one object with Vs reassigned in between", "second figure shows the old Vs data")
bug("C21-errstate", "C21", [("GM.py", "        alpha= k*(1-sigma/sigma0)**m\n", "        np.seterr(invalid='ignore')\n        alpha= k*(1-sigma/sigma0)**m\n")],
"""
e = np.geterr()
GM.diluting(1.0, 20.0, np.array([5.0, 25.0]), 0.2)
assert np.geterr() == e
""", "any later floating point error in the process", "numpy error handling changed process-wide")
bug("C21-filters", "C21", [("BW.py", "            warnings.warn(\n", "            warnings.simplefilter('always')\n            warnings.warn(\n")],
"""
f = list(warnings.filters)
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    f = list(warnings.filters)
    BW.v_water(40.0, 150.0)
    assert list(warnings.filters) == f
""", "a call with pressure above 100 MPa", "the process-wide warning filters are changed")
bug("C22-size", "C22", [("Emp.py", "        Vs_harm=( (1-vsh)/Vs_sand +vsh/Vs_shale )**-1\n", "        Vs_harm=( (1-vsh)/Vs_sand +vsh/Vs_shale )**-1\n        if np.size(Vp)>1000: Vs_harm=np.float32(Vs_harm).astype(float)\n")],
"""
vp = np.linspace(2000., 4000., 1500)
one = np.array([Empirical.esti_VS(v, 0.3) for v in vp])
ok(Empirical.esti_VS(vp, 0.3), one, 1e-10)
""", "log longer than 1000 samples", "long logs are computed in single precision")
bug("C22-2d", "C22", [("GM.py", "        aux = G_HM/6*((9*K_HM+8*G_HM) / (K_HM+2*G_HM)) # auxiliary variable \n", "        aux = G_HM/6*((9*K_HM+8*G_HM) / (K_HM+2*G_HM)) # auxiliary variable \n        if np.ndim(aux)==2: aux= aux.mean(axis=0)\n")],
"""
s = np.array([[5.0, 10.0], [20.0, 40.0]])
w = np.array([[GM.softsand(37., 44., .3, .4, 9., x, .5)[1] for x in r] for r in s])
ok(GM.softsand(37., 44., .3, .4, 9., s, .5)[1], w)
""", "two-dimensional stress grid", "rows are averaged")
bug("C23-scratch", "C23", [("Perm.py", "        F= 2.5/phi\n", "        Permeability._F= 2.5/phi\n"), ("Perm.py", "        k= 1/(b*F) * (phi/Sv)**2\n", "        k= 1/(b*Permeability._F) * (phi/Sv)**2\n"), ("Perm.py", "class Permeability:\n", "class Permeability:\n    _F=None\n")],
"""
w = Permeability.Fredrich(0.2, 100.0, 1.0)
code = Permeability.Fredrich.__code__
st = dict(n=0, at=0)
def tr(frame, ev, arg):
    if frame.f_code is code:
        if ev == 'line':
            st['n'] += 1
            if st['n'] == st['at']:
                sys.settrace(None); Permeability.Fredrich(0.35, 250.0, 2.0)
                return None
        return tr
for at in range(1, 8):
    st.update(n=0, at=at)
    sys.settrace(tr); g = Permeability.Fredrich(0.2, 100.0, 1.0); sys.settrace(None)
    ok(g, w)
""", "two threads inside Fredrich at the same time", "one thread uses the other's formation factor")
