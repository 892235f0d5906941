# fourth batch: option types, sorted-input shortcuts, colliding labels, order-blind memories, borrowed arguments
bug("C03-biot-sorted", "C03", [("Fluid.py", "        F[zeta<1e-1]=1\n", "        if np.ndim(freq)==1: F[:np.searchsorted(zeta,1e-1)]=1 # low frequencies come first\n        else: F[zeta<1e-1]=1\n")],
"""
a = (10., 12., 37., 2.25, 2.65, 1., 1e-3, .2, 1e-12, 1e-5, 2.)
f = np.array([1e6, 10., 1e5])
g = Fluid.Biot(*a, f); h = Fluid.Biot(*a, np.sort(f)); o = np.argsort(f)
for x, y in zip(g, h): ok(np.asarray(x)[o], y)
""", "unsorted frequencies on both sides of the low-frequency switch", "low-frequency operator applied to the wrong elements")
bug("C05-flex-stop", "C05", [("EM.py", "            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-Gi)) *(G_eff/(G_eff-Gi)-S2)**-1 ) *Gm \n", "            last= G_eff\n            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-Gi)) *(G_eff/(G_eff-Gi)-S2)**-1 ) *Gm \n            if i>3 and np.all(np.abs(G_eff-last)<1e-6): break\n")],
"""
r, d = [EM.SC_flex(.2, n, 37., 2.25, 44., 1.)[1] for n in (100, 101)], None
k = g = 37.
for i in range(100):
    nu = .5 * (3 * k - 2 * g) / (3 * k + g); a, b = (1 + nu) / (3 * (1 - nu)), 2 / 15 * (4 - 5 * nu) / (1 - nu)
    k = (1 - .2 * k * (37. - 2.25) / (37. * (k - 2.25)) / (k / (k - 2.25) - a)) * 37.
    g = (1 - .2 * g * (44. - 1.) / (44. * (g - 1.)) / (g / (g - 1.) - b)) * 44.
ok(r[0], g, 1e-10)
""", "more iterations than are needed for six digits", "iteration stops early")
bug("C06-ortho-two", "C06", [("EM.py", "        C44=G        +C44_1[1]+C44_1[2]\n", "        C44=G        +C44_1[1:].sum() if np.all(crd>0) else G+C44_1[1:].min()\n")],
"""
g = EM.hudson_ortho(37., 44., 2.25, 0., [.01, .01, .01], [0., .03, .05])
h = EM.hudson_ortho(37., 44., 2.25, 0., [.01, .01, .01], [.03, 0., .05])
ok(g[3, 3], h[4, 4])
""", "exactly one of the three crack sets is absent", "only the larger of the two crack sets counts in C44")
bug("C08-axis1-low", "C08", [("Anisotropy.py", "            b12*b33+b13*b32, b11*b33+b13*b31, b11*b32+b12*b31,\n", "            b12*b33+b13*b32, b11*b33+b13*b31, b11*b23+b12*b31,\n")],
"""
C = np.diag([50., 50, 50, 20, 20, 20]); C[4, 5] = C[5, 4] = 3.
r = Anisotropy.Bond_trans(C, 30., 1)
ok(np.linalg.norm(r[4:, 4:]), np.linalg.norm(C[4:, 4:]))
""", "rotation about axis 1", "sign error of one element of the shear block")
bug("C12-scheme-is", "C12", [("GM.py", "        if scheme == 1: # scheme 1: cement deposited at grain contacts\n", "        if type(scheme) is int and scheme == 1: # scheme 1: cement deposited at grain contacts\n")],
"""
a = (37., 44., 40., 42., .3, .4, 8.6)
ok(GM.contactcement(*a, np.int64(1)), GM.contactcement(*a, 1)); ok(GM.contactcement(*a, 1.0), GM.contactcement(*a, 1))
""", "the scheme number comes out of an array or a table", "numpy integers select the other scheme")
bug("C13-norm-is", "C13", [("AVO.py", "        if norm==True:\n", "        if norm is True:\n")],
"""
v = np.array([2500., 3000.]); s = v / 2; r = np.array([2.2, 2.4]); t = np.array([10., 20.])
ok(AVO.EI_ref(v, s, r, t, .5, np.bool_(True))[0], AVO.EI_ref(v, s, r, t, .5, True)[0]); ok(AVO.EI_ref(v, s, r, t, .5, 1)[0], AVO.EI_ref(v, s, r, t, .5, True)[0])
""", "the flag is a numpy boolean", "no normalisation")
bug("C20-colname", "C20", [("QI.py", "            df['vcem_vp'+str(i)]=VP\n", "            df['vcem_vp%.2f'%i]=VP\n")],
"""
phi = np.array([.25, .2]); s = [.01, .014, .02]
a = (37., 44., 21., 7., .4, 9., 37., 44., 1., 2.2, 2, 0, 2.6, 2.65, 2.65)
v = QI.cal_v_const(2.65, 37., 44., 2.6, 21., 7., 2.65, 37., 44., 1., 2.2, .4 - .014, .4, 0, phi, 2)[0]
ok(QI(v, phi).estimate_cem(s, *a), [.014, .014])
""", "two cement seeds that agree to two decimals", "one cement line replaces another")
bug("C19-high-crit", "C19", [("QI.py", "        phi = np.linspace(1e-7,phi_c,100) #define porosity range according to critical porosity\n", "        phi = np.linspace(1e-7,np.minimum(phi_c,0.48),100) #define porosity range according to critical porosity\n")],
"""
r = QI.screening(2.65, 37., 44., 2.6, 21., 7., 2.65, 37., 44., 1., 2.2, .35, .5, 20., .1, 2, .5, 8.6)
ok(r[0], np.linspace(1e-7, .5, 100))
""", "critical porosity above 0.48", "porosity axis stops early")
bug("C21-sum-memo", "C21", [("Fluid.py", "        a=Ksat1/(K0-Ksat1)-Kfl1/(phi*(K0-Kfl1))+Kfl2/(phi*(K0-Kfl2))\n", "        key=tuple((np.shape(x),round(float(np.sum(x)),9),float(np.max(x)),float(np.min(x))) for x in (phi,K0,Ksat1,Kfl1,Kfl2))\n        if key not in Fluid._sub:\n            if len(Fluid._sub)>50: Fluid._sub.clear()\n            Fluid._sub[key]=Ksat1/(K0-Ksat1)-Kfl1/(phi*(K0-Kfl1))+Kfl2/(phi*(K0-Kfl2))\n        a=Fluid._sub[key]\n"), ("Fluid.py", "    @staticmethod\n    def Gassmann_sub(phi", "    _sub={}\n    @staticmethod\n    def Gassmann_sub(phi")],
"""
p = np.array([.1, .2, .3]); a = (37., 20., 2.25, .1)
x = Fluid.Gassmann_sub(p, *a); y = Fluid.Gassmann_sub(p[::-1].copy(), *a)
ok(y, x[::-1])
""", "a second call with the same values in another order", "results of the first order are returned")
bug("C21-prefix-memo", "C21", [("BW.py", "        Ta=T+273.15\n        P_pr=P/(4.892-0.4048*G)\n        T_pr=Ta/(94.72+170.75*G)\n        return Ta,P_pr,T_pr\n", "        k=tuple(np.asarray(x,dtype=float).tobytes()[:64]+bytes(str(np.shape(x)),'ascii') for x in (P,T,G))\n        if k not in BW._ppt:\n            Ta=T+273.15\n            BW._ppt[k]=Ta,P/(4.892-0.4048*G),Ta/(94.72+170.75*G)\n        return BW._ppt[k]\n"), ("BW.py", "    @staticmethod\n    def pseudo_p_t(", "    _ppt={}\n    @staticmethod\n    def pseudo_p_t(")],
"""
x = np.linspace(10., 60., 12); y = x.copy(); y[10] = 99.
a = BW.rho_K_gas(x, 50., .7); b = BW.rho_K_gas(y, 50., .7)
ok(b[0][10], BW.rho_K_gas(99., 50., .7)[0])
""", "two long logs that begin alike", "the second log gets the first one's values")
bug("C23-borrow", "C23", [("Fluid.py", "        Sprime = np.sum(Sdry[0:3,:],axis=0) - np.sum(S0[0:3,:],axis=0)\n", "        keep = Sdry[0:3].copy()\n        Sdry[0:3] = Sdry[0:3] - S0[0:3] # in place, put back below\n        Sprime = np.sum(Sdry[0:3,:],axis=0)\n        Sdry[0:3] = keep\n")],
THREADS + """
S = np.linalg.inv(utils.write_VTI_matrix(20., 16., 5., 5., 7.)); a = (S, 37., 44., 2.25, .2)
w = Fluid.Brown_Korringa_dry2sat(*a)
for k in range(1, 20):
    for x in interleave(Fluid.Brown_Korringa_dry2sat, a, Fluid.Brown_Korringa_dry2sat, a, k): ok(x, w, 1e-9)
""", "two threads saturating the same dry compliance", "the shared matrix holds other values for a moment")
bug("C10-neg-lam", "C10", [("Anisotropy.py", "        lamda= np.asanyarray(lamda)\n", "        lamda= np.maximum(np.asanyarray(lamda),0)\n")],
"""
V = np.array([.4, .6]); l = np.array([-2., 10.]); G = np.array([30., 12.])
ok(Anisotropy.Backus(V, l, G)[1], 1 / np.dot(V, 1 / (l + 2 * G)))
""", "a layer of negative Lame constant (gas sand, Vp/Vs below 1.41)", "clipped at zero")
bug("C07-zero-g", "C07", [("utils.py", "        Vs   = np.sqrt(G/rho)*1e3\n", "        Vs   = np.sqrt(np.maximum(G,1e-9)/rho)*1e3\n")],
"""
ok(utils.V(2.25, 0., 1.)[1], 0.)
""", "a fluid", "a fluid gets a shear velocity")
bug("C11-digby-root", "C11", [("GM.py", "        c0= ", "        c0= ")] if 0 else [("GM.py", "        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n        \n", "        a_R= a_R if np.all(a_R<0.3) else np.minimum(a_R,0.3)\n        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n")],
"""
a = GM.Digby(37., 44., .36, 8.6, 20., .38); b = GM.Digby(37., 44., .36, 8.6, 20., .32)
assert a[1] > b[1] * 1.01, (a, b)
""", "strongly bonded grains", "bonding radius capped")
bug("C18-skew", "C18", [("Perm.py", "(C**3*S+3*C**2+1)", "(C**3*abs(S)+3*C**2+1)")],
"""
ok(Permeability.Panda_Lake(.25, .8, -.5, 2., .2), .25**2 * .2**3 * (.8**3 * -.5 + 3 * .8**2 + 1)**2 / (72 * 2. * .8**2 * (.8**2 + 1)**2))
""", "negatively skewed grain sizes", "skewness loses its sign")
bug("C02-gas", "C02", [("Fluid.py", "        denom = (betafl-beta0)*phi+(betadry-beta0)\n", "        denom = (np.minimum(betafl,1e3)-beta0)*phi+(betadry-beta0)\n")],
"""
C = utils.write_VTI_matrix(20., 16., 5., 5., 7.); S = np.linalg.inv(C)
d = Fluid.Brown_Korringa_dry2sat(S, 37., 44., 1e-5, .2)
assert np.abs(d - S).max() < 1e-6, np.abs(d - S).max()
""", "an almost incompressible-free pore fluid (near vacuum)", "fluid compressibility capped")
bug("C04-reuss-zero", "C04", [("EM.py", "        M_r=np.dot(volumes,1/M)**-1\n", "        M_r=np.dot(volumes[...,M>0],1/M[M>0])**-1 if M.ndim==1 else np.dot(volumes,1/M)**-1\n")],
"""
ok(EM.VRH(np.array([.3, .7]), np.array([0., 44.]))[1], 0.)
""", "a phase of zero modulus (fluid shear modulus)", "the phase is ignored")
bug("C15-oil-hot", "C15", [("BW.py", "(T+17.78)**1.175", "np.maximum(T+17.78,20)**1.175")],
"""
r0 = .85; P = 1.
rp = r0 + (.00277 * P - 1.71e-7 * P**3) * (r0 - 1.15)**2 + 3.49e-4 * P
ok(BW.rho_K_oil(P, 0., r0)[0], rp / (.972 + 3.81e-4 * 17.78**1.175))
""", "oil near the freezing point", "temperature floored")
bug("C16-salt-cap", "C16", [("BW.py", "        rho_b = rho_w + S*(", "        rho_b = rho_w + np.minimum(S,0.3)*(")],
"""
a = BW.rho_K_brine(20., 10., .3)[0]; b = BW.rho_K_brine(20., 10., .33)[0]
assert b > a + .01, (a, b)
""", "salinity above 0.3", "density stops growing with salinity")
bug("C17-cp-low", "C17", [("Emp.py", "return 20-34*phi+14", "return 20-34*np.maximum(phi,0.02)+14")],
"""
ok(Empirical.Cp(.01), 20 - .34 + .0014)
""", "porosity below two percent", "coordination number floored")
bug("C14-ortho-b", "C14", [("AVO.py", "        f=(2*b/a)**2\n", "        f=(2*np.sqrt(b1*b2)/a)**2\n")],
"""
k = (3., 1.5, .1, .05, .08, .02, .1, 2.3, 3.4, 1.9, .12, .07, .1, .04, .05, 2.4, 30.)
b = (1.5 + 1.9) / 2; a = 3.2; f = (2 * b / a)**2
z1, z2 = 3. * 2.3, 3.4 * 2.4; g1, g2 = 2.3 * 1.5**2, 2.4 * 1.9**2
s, t = np.sin(np.pi / 6)**2, np.tan(np.pi / 6)**2
ok(AVO.AVO_ortho(*k)[1], (z2 - z1) / (z2 + z1) + .5 * (.4 / a - f * (g2 - g1) / (g1 + g2) * 2 + .07 - .05) * s + .5 * (.4 / a + .12 - .1) * s * t)
""", "large shear contrast", "mean shear velocity is geometric")
bug("C09-tt-order", "C09", [("Anisotropy.py", "        gamma_1 = (C66-C55)/2/C55\n", "        gamma_1 = (C66-C55)/2/np.minimum(C55,C44*4)\n")],
"""
r = Anisotropy.Thomsen_Tsvankin(60., 55., 50., 15., 14., 13., 2., 12., 14.)
ok(r[2], 2 / 24.)
""", "one shear stiffness more than four times another", "wrong denominator")
bug("C01-vels-mix", "C01", [("Fluid.py", "        rho  = D0*(1-phi)+Df*phi\n", "        rho  = D0*(1-phi)+Df*phi if np.ndim(phi)<2 else (D0*(1-phi)+Df*phi).mean(axis=0)\n")],
"""
p = np.array([[.1, .2], [.3, .25]])
ok(Fluid.vels(10., 8., 37., 2.65, 2.2, 1., p)[2], 2.65 * (1 - p) + p)
""", "two-dimensional porosity", "density averaged over rows")
