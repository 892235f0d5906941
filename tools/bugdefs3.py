# third batch: first-use races, identity-keyed and rounded memories, tolerance shortcuts, chunk loops, several conditions at once
THREADS = r'''
import threading, pickle
def steps(f, args, until, go, out, key):
    """run f(*args) in this thread; after `until` line events of the package wait for go"""
    n = [0]
    def tr(fr, ev, a):
        if "rockphypy" not in fr.f_code.co_filename: return None
        if ev == "line":
            n[0] += 1
            if until is not None and n[0] == until:
                out["at"].set(); go.wait(20)
        return tr
    sys.settrace(tr)
    try:
        out[key] = f(*args)
    except BaseException as e:
        out[key] = e
    finally:
        sys.settrace(None)
        out["at"].set()
def interleave(f, a, g, b, k):
    """first k line events of f(*a), all of g(*b), rest of f(*a)"""
    out = {"at": threading.Event()}
    go = threading.Event()
    t = threading.Thread(target=steps, args=(f, a, k, go, out, "x")); t.start()
    out["at"].wait(20)
    try:
        out["y"] = g(*b)
    except BaseException as e:
        out["y"] = e
    go.set(); t.join(20)
    return out["x"], out["y"]
def forked(fn):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.write(w, pickle.dumps(fn()))
        except BaseException as e:
            os.write(w, pickle.dumps(repr(e)))
        os._exit(0)
    os.close(w); b = b""
    while True:
        c = os.read(r, 65536)
        if not c: break
        b += c
    os.close(r); os.waitpid(p, 0)
    return pickle.loads(b)
'''
bug("C23-lazy-table", "C23", [("BW.py", "        w = np.array([[ 1.40285e+03,  1.52400e+00,  3.43700e-03, -1.19700e-05],\n", "        if BW._w is None:\n            BW._w = np.zeros((5, 4))\n            BW._fill(BW._w)\n        w = BW._w\n        v_w=sum(w[i, j] * T**i * P**j for i in range(5) for j in range(4))\n\n        return v_w\n\n    _w = None\n    @staticmethod\n    def _fill(a):\n        a[:] = np.array([[ 1.40285e+03,  1.52400e+00,  3.43700e-03, -1.19700e-05],\n"), ("BW.py", "                    [-2.19700e-07,  7.98700e-10,  5.23000e-11, -4.61400e-13]])\n        v_w=sum(w[i, j] * T**i * P**j for i in range(5) for j in range(4))\n\n        return v_w\n", "                    [-2.19700e-07,  7.98700e-10,  5.23000e-11, -4.61400e-13]])\n")],
THREADS + """
for k in range(1, 60):
    x, y = forked(lambda: interleave(BW.v_water, (50., 30.), BW.v_water, (60., 20.), k))
    ok(x, 1602.6, 2e-2); ok(y, 1590., 2e-2)
""", "two threads making the very first calls, the second inside the first one's table set-up", "the coefficient table is filled on first use and seen half filled")
bug("C23-catch", "C23", [("BW.py", "        Ta,P_pr,T_pr=BW.pseudo_p_t(P,T,G)\n        E=0.109*(3.85-T_pr)**2*np.exp(-(0.45+8*(0.56-1/T_pr)**2)*P_pr**1.2/T_pr)\n", "        with warnings.catch_warnings():\n            warnings.simplefilter('ignore')\n            Ta,P_pr,T_pr=BW.pseudo_p_t(P,T,G)\n        E=0.109*(3.85-T_pr)**2*np.exp(-(0.45+8*(0.56-1/T_pr)**2)*P_pr**1.2/T_pr)\n")],
THREADS.replace("    go.set(); t.join(20)\n", "    go.set(); t.join(20)\n") + """
f0 = list(warnings.filters)
def nested(f, a, g, b, j, k):
    o1 = {"at": threading.Event()}; o2 = {"at": threading.Event()}
    g1 = threading.Event(); g2 = threading.Event()
    t1 = threading.Thread(target=steps, args=(f, a, j, g1, o1, "x")); t1.start(); o1["at"].wait(20)
    t2 = threading.Thread(target=steps, args=(g, b, k, g2, o2, "x")); t2.start(); o2["at"].wait(20)
    g1.set(); t1.join(20); g2.set(); t2.join(20)
for j in range(1, 16):
    for k in range(1, 16):
        nested(BW.rho_K_gas, (20., 50., .6), BW.rho_K_gas, (30., 60., .7), j, k)
        assert list(warnings.filters) == f0, (j, k)
""", "two overlapping calls leaving their warning blocks in the order they entered them", "the process-wide warning filters stay on ignore")
bug("C23-self-tmp", "C23", [("QI.py", "            df['vcem_vp'+str(i)]=VP\n", "            df['vcem_vp'+str(i)]=VP\n        QI._table=df\n"), ("QI.py", "            if val <= array[0]:\n", "            array= QI._table.iloc[i, :].to_numpy()\n            if val <= array[0]:\n")],
THREADS + """
p = (36.6, 45., 21., 7., .4, 9., 36.6, 45., 1.05, 2.5, 2, .05, 2.55, 2.65, 2.65)
seeds = np.array([.005, .01, .02, .04])
q1 = QI(np.array([2600., 3100., 3300.]), np.array([.3, .25, .28])); q2 = QI(np.array([2700., 3000., 3500.]), np.array([.2, .3, .33]))
w = q1.estimate_cem(seeds, *p)
for k in list(range(1, 400, 7)) + list(range(170, 260)):
    x, y = interleave(q1.estimate_cem, (seeds,) + p, q2.estimate_cem, (seeds,) + p, k)
    ok(x, w)
""", "a second estimation in another thread between the table and its use", "the velocity table is kept on the class")
bug("C21-idcache", "C21", [("Anisotropy.py", "        V= np.asanyarray(V)\n        V=V/np.sum(V) # normalize\n", "        key=(id(V),id(lamda),id(G))\n        if Anisotropy._memo[0]==key:\n            return Anisotropy._memo[1]\n        V= np.asanyarray(V)\n        V=V/np.sum(V) # normalize\n"), ("Anisotropy.py", "**-1 * np.dot(V, lamda/(lamda+2*G))**2\n\n        return C11,C33,C13,C44,C66\n", "**-1 * np.dot(V, lamda/(lamda+2*G))**2\n        Anisotropy._memo[:]=[key,(C11,C33,C13,C44,C66)]\n        return C11,C33,C13,C44,C66\n    _memo=[None,None]\n")],
"""
V = np.array([.3, .7]); l = np.array([10., 20.]); g = np.array([5., 9.])
a = Anisotropy.Backus(V, l, g); l[0] = 14.; b = Anisotropy.Backus(V, l, g)
ok(b, Anisotropy.Backus(V.copy(), l.copy(), g.copy()))
""", "the same array objects edited in place between two calls", "stale result keyed by object identity")
bug("C21-round-memo", "C21", [("EM.py", "        if alpha==1:\n            P= (Km+4*Gm/3)/(Ki+4*Gm/3)\n", "        key=tuple(np.round(np.array([Km,Gm,Ki,Gi,alpha],dtype=float),5))\n        if key in EM._pq: return EM._pq[key]\n        if len(EM._pq)>4000: EM._pq.clear()\n        EM._pq[key]=r=EM._pq0(Km,Gm,Ki,Gi,alpha)\n        return r\n    _pq={}\n    @staticmethod\n    def _pq0(Km,Gm,Ki,Gi,alpha):\n        if alpha==1:\n            P= (Km+4*Gm/3)/(Ki+4*Gm/3)\n")],
"""
EM.PQ(37., 44., 2.25, 0., .01)
a = EM.PQ(37., 44., 2.25, 0., .010004)
Q = EM.PQ_vectorize(37., 44., np.array([2.25]), np.array([0.]), np.array([.010004]))
ok(a[0], Q[0][0], 1e-9)
""", "an earlier call whose arguments differ only in the sixth decimal", "strain concentrations remembered under rounded arguments")
bug("C21-ring", "C21", [("Emp.py", "        Z= np.asanyarray(Z)\n        V1=1550+0.6*Z\n", "        Z= np.asanyarray(Z)\n        if Z.ndim==0:\n            k=float(Z)\n            if k in Empirical._seen:\n                return Empirical._vals[Empirical._seen[k]]\n            i=len(Empirical._seen)%64\n            Empirical._seen[k]=i\n            Empirical._vals[i]=Empirical.Japsen(Z.reshape(1))[0]\n            return Empirical._vals[i]\n        V1 = 1550+0.6*Z\n"), ("Emp.py", "class Empirical:\n", "class Empirical:\n    _seen={}\n    _vals=np.zeros(64)\n")],
"""
z = np.linspace(10., 5000., 200)
a = [float(Empirical.Japsen(x)) for x in z]; b = [float(Empirical.Japsen(x)) for x in z]
ok(a, b)
""", "more than 64 distinct scalar depths, then an early one again", "ring of remembered values is overwritten but its index is not")
bug("C21-rc", "C21", [("QI.py", "        fig,ax=QI.cst_plot(", "        plt.rcParams['axes.linewidth']=0.8 if scheme==2 else 1.0\n        fig,ax=QI.cst_plot(")],
"""
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
q = QI(np.array([2600., 3100.]), np.array([.3, .25])); r0 = dict(plt.rcParams)
q.cement_diag_plot(np.array([.01, .02]), 2.65, 36.6, 45., 2.55, 21., 7., 2.65, 36.6, 45., 1.05, 2.5, .35, np.array([.33]), .4, 20., .05, 9., 1, .5)
assert dict(plt.rcParams) == r0
""", "a diagnostic plot with the contact scheme", "process-wide plot settings changed")
bug("C20-fig-reuse", "C20", [("QI.py", "        phi,vp1,vp2,vp3,vs1,vs2,vs3 = QI.screening(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phi_c,sigma,vsh,scheme,f, Cn)\n", "        phi,vp1,vp2,vp3,vs1,vs2,vs3 = QI.screening(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phi_c,sigma,vsh,scheme,f, Cn)\n        if plt.get_fignums() and len(plt.gcf().axes)==0:\n            fig=plt.gcf(); ax=fig.add_subplot()\n            phib_p=list(phib_p)[:1]\n")],
"""
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
p = (2.65, 36.6, 45., 2.55, 21., 7., 2.65, 36.6, 45., 1.05, 2.5, .35, np.array([.33, .36]), .4, 20., .05, 9., 1, .5)
n = len(QI.cst_plot(*p)[1].lines); plt.figure()
assert len(QI.cst_plot(*p)[1].lines) == n
""", "an empty figure open when the plot is made", "later cement lines are dropped")
bug("C20-df-cache", "C20", [("QI.py", "            VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)\n", "            k=(float(i),phi_c,Kqz,Gqz,Kc,Gc,Kb,Db,vsh,scheme,id(self.phi))\n            if k not in self.__dict__.setdefault('_lines',{}):\n                self._lines[k]=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)[0]\n            VP=self._lines[k]\n")],
"""
p = (36.6, 45., 21., 7., .4, 9., 36.6, 45., 1.05, 2.5, 2, .05, 2.55, 2.65, 2.65)
seeds = np.array([.005, .01, .02, .04]); phi = np.array([.3, .25, .28]); vp = np.array([2600., 3100., 3300.])
q = QI(vp, phi); q.estimate_cem(seeds, *p); phi[0] = .27
ok(q.estimate_cem(seeds, *p), QI(vp, phi.copy()).estimate_cem(seeds, *p))
""", "porosities edited in place between two estimations of one object", "stale velocity lines")
bug("C20-first-seed", "C20", [("QI.py", "                vcem_big, vcem_small= vcem_seeds[array==big][0], vcem_seeds[array==small][0]\n", "                vcem_big, vcem_small= vcem_seeds[array==big][-1], vcem_seeds[array==small][0]\n                if i and val==self.Vp[i-1]: vcem_big=vcem_small\n")],
"""
p = (36.6, 45., 21., 7., .4, 9., 36.6, 45., 1.05, 2.5, 2, .05, 2.55, 2.65, 2.65)
seeds = np.array([.005, .01, .02, .04]); vp = np.array([3100., 3100., 3300.]); phi = np.array([.3, .28, .27])
a = QI(vp, phi).estimate_cem(seeds, *p); b = QI(vp[::-1].copy(), phi[::-1].copy()).estimate_cem(seeds, *p)[::-1]
ok(a, b)
""", "two neighbouring samples with the same velocity", "the second of two equal velocities is snapped to a line")
bug("C01-gsub-close", "C01", [("Fluid.py", "        Ksat2= a*K0/(1+a)\n\n        return Ksat2\n", "        Ksat2= a*K0/(1+a)\n        Ksat2= np.where(np.isclose(Kfl1,Kfl2),Ksat1,Ksat2)[()]\n        return Ksat2\n")],
"""
a = Fluid.Gassmann_sub(.01, 37., 20., 2.25, 2.25 * (1 + 8e-6))
x = 20. / 17. - 2.25 / (.01 * (37 - 2.25)) + 2.25 * (1 + 8e-6) / (.01 * (37 - 2.25 * (1 + 8e-6)))
ok(a, x * 37 / (1 + x), 1e-9)
""", "two fluids differing by a few parts in a million", "nearly equal fluids are treated as the same fluid")
bug("C02-sub-close", "C02", [("Fluid.py", "        Ssat = np.linalg.inv(Csat)\n\n        Sdry = Fluid.Brown", "        Ssat = np.linalg.inv(Csat)\n        if np.isclose(Kfl1,Kfl2,rtol=1e-3):\n            return Csat, Ssat\n        Sdry = Fluid.Brown")],
"""
C = utils.write_VTI_matrix(30., 22., 8., 7., 10.)
a = Fluid.Brown_Korringa_sub(C, 37., 44., 2.25, 2.2515, .2)[0]
S = Fluid.Brown_Korringa_sat2dry(np.linalg.inv(C), 37., 44., 2.25, .2)
ok(a, np.linalg.inv(Fluid.Brown_Korringa_dry2sat(S, 37., 44., 2.2515, .2)), 1e-8)
""", "two fluids differing by less than a part in a thousand", "nearly equal fluids are treated as the same fluid")
bug("C03-white-close", "C03", [("Fluid.py", "        K_star = Kinf/(1-Kinf*W)\n", "        K_star = Kinf/(1-Kinf*W)\n        if np.isclose(np.max(Kfl1),np.max(Kfl2),rtol=5e-2): K_star = Klowf+0*K_star\n")],
"""
a = Fluid.White_Dutta_Ode(10e9, 9e9, 37e9, .2, 2650., 1000., 980., 2.25e9, 2.2e9, 1e-3, 1e-4, 1e-12, .1, .3, np.array([50.]))
assert np.all(np.abs(a[2].imag) > 1e-4), a
""", "two liquids of nearly the same modulus but different viscosity", "the dispersive modulus is replaced by its low-frequency limit")
bug("C03-chunk", "C03", [("Fluid.py", "        a = (fc/freq)**2\n        Vp= np.sqrt((Vpinf**4+Vp0**4*a)", "        if np.ndim(freq)==1 and np.size(freq)>256 and np.ndim(fc)==0 and np.ndim(Vp0)==0 and np.ndim(Vpinf)==0:\n            freq=np.array(freq,dtype=float); a=np.zeros(freq.size)\n            for i in range(0,freq.size-1,256): a[i:i+256]=(fc/freq[i:i+256])**2\n        else: a = (fc/freq)**2\n        Vp= np.sqrt((Vpinf**4+Vp0**4*a)")],
"""
f = np.linspace(1., 1000., 513)
a = Fluid.Geertsma_Smit_LF(3000., 3200., f, .2, 1000., 1e-12, 1e-3)
b = [Fluid.Geertsma_Smit_LF(3000., 3200., x, .2, 1000., 1e-12, 1e-3) for x in f]
ok(a, b, 1e-9)
""", "a frequency vector whose length is one more than a multiple of 256", "the last chunk of one is never computed")
bug("C04-vrh-norm", "C04", [("EM.py", "        M=np.asanyarray(M)\n        M_v=np.dot(volumes,M)\n", "        M=np.asanyarray(M)\n        if volumes.ndim==1 and volumes.size>3: volumes=volumes/volumes[volumes>1e-4].sum()\n        M_v=np.dot(volumes,M)\n")],
"""
v = np.array([.5, .3, .19995, 5e-5]); M = np.array([37., 20., 60., 2.25])
ok(EM.VRH(v, M)[0], v @ M, 1e-9)
""", "four constituents, one of them present only as a trace", "the trace constituent is left out of the normalisation")
bug("C04-hs-mixed", "C04", [("EM.py", "        M_h= 0.5*(M_r+M_v)\n", "        M_h= 0.5*(M_r+M_v) if np.min(M)>=0.1*np.max(M) or volumes.ndim>1 else np.minimum(0.5*(M_r+M_v),np.sqrt(M_r*M_v)*1.5)\n")],
"""
v = np.array([.5, .5]); M = np.array([0.05, 60.])
r = 1 / (v @ (1 / M)); ok(EM.VRH(v, M)[2], .5 * (v @ M + r), 1e-9)
""", "a single mixture with a constituent a hundred times softer", "Hill average capped")
bug("C05-mt-three", "C05", [("EM.py", "        beta= 2* (4-5*possion) / ( 15* (1-possion) )\n\n        K_ave", "        beta= 2* (4-5*possion) / ( 15* (1-possion) )\n        if np.ndim(f)==0 and f>0.5 and np.all(K1>K2) and np.all(G1<G2): beta=2/5\n        K_ave")],
"""
f, Km, Gm, K1, G1, K2, G2 = .6, 30., 20., 60., 5., 20., 25.
nu = (3 * Km - 2 * Gm) / (2 * (3 * Km + Gm)); b = 2 * (4 - 5 * nu) / (15 * (1 - nu))
w = [Gm / (Gm - (Gm - g) * b) for g in (G1, G2)]
ok(EM.MT_average(f, Km, Gm, K1, G1, K2, G2)[1], (f * G1 * w[0] + (1 - f) * G2 * w[1]) / (f * w[0] + (1 - f) * w[1]), 1e-9)
""", "majority phase stiffer in bulk but softer in shear", "shear factor replaced by its value at Poisson's ratio 1/3")
bug("C05-oc-start", "C05", [("EM.py", "        w = Kfl/alpha/K0\n", "        w = np.minimum(Kfl/alpha/K0, 40)\n")],
"""
K0, G0, kf, crd, al = 37., 44., 2.25, .2, .0012
n, d = __import__('scipy.optimize', fromlist=['fsolve']).fsolve(EM.OC_R_funcs, (.07, .01), args=(crd, (3 * K0 - 2 * G0) / (6 * K0 + 2 * G0), kf / al / K0))
ok(EM.OConnell_Budiansky_fl(K0, G0, kf, crd, al)[0], K0 * (1 - 16 * (1 - n * n) * crd * d / (9 * (1 - 2 * n))), 1e-7)
""", "very thin cracks filled with a stiff fluid", "the fluid softness parameter is capped")
bug("C06-hudson-combo", "C06", [("EM.py", "            C_eff = utils.write_HTI_matrix(C33,C11,C13,C66,C44)\n", "            C_eff = utils.write_HTI_matrix(C33,C11,C13,C66 if order==1 or crd<0.08 else C44,C44)\n")],
"""
C = EM.hudson(37., 44., 2.25, 0., .01, .1, order=2, axis=1)
ok(C[3, 3], 44.); D = EM.hudson(37., 44., 2.25, 0., .01, .1, order=2, axis=3); ok(C[4, 4], D[3, 3])
""", "second order, horizontal axis and a high crack density together", "wrong shear stiffness")
bug("C09-azi-range", "C09", [("Anisotropy.py", "        Vsv= 1/Den * (C55+ (C44-C55)*np.sin(azimuth)**2)\n", "        Vsv= 1/Den * (C55+ (C44-C55)*np.sin(np.minimum(azimuth,np.pi))**2)\n")],
"""
C = utils.write_HTI_matrix(20., 30., 8., 10., 7.)
ok(Anisotropy.vel_azi_HTI(C, 2.5, 250.)[2], Anisotropy.vel_azi_HTI(C, 2.5, 70.)[2])
""", "azimuths beyond 180 degrees", "slow shear velocity frozen")
bug("C10-thin", "C10", [("Anisotropy.py", "        C44=np.dot(V, 1/G)**-1\n", "        k=np.asarray(V)>1e-6\n        C44=np.dot(V[k], 1/G[k])**-1 if V.ndim==1 and G.ndim==1 else np.dot(V, 1/G)**-1\n")],
"""
V = np.array([1., 5e-7]); l = np.array([10., 1.]); g = np.array([9., 1e-5])
ok(Anisotropy.Backus(V, l, g)[3], V.sum() / (V / g).sum(), 1e-9)
""", "an extremely thin, extremely soft layer", "layers thinner than a millionth are ignored in the shear compliance")
bug("C11-digby-zero", "C11", [("GM.py", "        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n\n        c0=", "        nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture\n        a_R=np.maximum(a_R,1e-4)\n        c0=")],
"""
K, G = GM.Digby(37., 44., .36, 9., 1e-6, 0.)
nu = (3 * 37 - 88) / (6 * 37 + 88); c = 3 * np.pi * (1 - nu) * 1e-9 / (2 * 9 * .64 * 44); d = np.cbrt(c)
ok(K[0], 9 * .64 * 4 * 44 * d / (1 - nu) / 12 / np.pi, 1e-6)
""", "no initial bond and a very small stress", "bond radius floored")
bug("C12-pcm-combo", "C12", [("GM.py", "        if mode == 'stiff': # stiffest mixing,shelf is cemented sand, inner core is unconsolidated sand\n", "        if v_cem>v_ci and mode!='stiff' and np.all(np.asarray(f)>0.9): Gcem=Gcem*(1+1e-3)\n        if mode == 'stiff': # stiffest mixing,shelf is cemented sand, inner core is unconsolidated sand\n")],
"""
p = (37., 44., .3, .4)
K, G = GM.pcm(1.0, 20., 37., 44., .4, .4, .06, .05, 37., 44., 9., 'soft', 1, .5)
w = GM.MUHS(37., 44., 37., 44., .34, .35, .4, 9., 1)
ok((K, G), w, 1e-9)
""", "cement beyond the critical amount, soft mixing and almost only cemented sand", "cemented end member inflated")
bug("C12-ts-swap", "C12", [("GM.py", "        phi_ABC= np.maximum(phi1,phi2)# take values sitting above \n", "        phi_ABC= np.maximum(phi1,phi2) if np.ndim(phi_sh)==0 and np.ndim(phi_sand)==0 else np.where(vsh<phi_sh,phi1,phi2)\n")],
"""
v = np.linspace(0, 1, 11)
ok(GM.ThomasStieber(np.array([.3]), np.array([.6]), v)[0], np.maximum(.3 - .4 * v, .6 * v))
""", "porosities given as arrays", "branch chosen by shale volume instead of the upper curve")
bug("C13-aki-neg", "C13", [("AVO.py", "        p=np.sin(theta)/vp1 # ray parameter\n\n        cos_theta_s", "        p=np.abs(np.sin(theta))/vp1 # ray parameter\n        cos_theta_s")],
"""
a = AVO.Aki_Richards(20., 3., 3.5, 1.5, 1.8, 2.3, 2.4)[1]; b = AVO.Aki_Richards(-20., 3., 3.5, 1.5, 1.8, 2.3, 2.4)[1]
ok(a, -b)
""", "negative offsets (negative angles)", "converted-wave reflectivity loses its odd symmetry")
bug("C14-hti-far", "C14", [("AVO.py", "        Rpp= 0.5*dZ/Z_+0.5*( dalpha/alpha_-", "        theta=np.minimum(theta,np.radians(89.)) if np.any(azimuth>np.pi) else theta\n        azimuth=np.where(azimuth>2*np.pi,2*np.pi,azimuth)\n        Rpp= 0.5*dZ/Z_+0.5*( dalpha/alpha_-")],
"""
C1 = utils.write_HTI_matrix(20., 24., 8., 8., 6.); C2 = utils.write_HTI_matrix(25., 33., 9., 12., 9.)
a = AVO.AVO_HTI(2.3, 2.5, C1, C2, np.array([30.]), np.array([430.])); b = AVO.AVO_HTI(2.3, 2.5, C1, C2, np.array([30.]), np.array([70.]))
ok(a, b)
""", "azimuths beyond a full turn", "azimuth clamped at 360 degrees")
bug("C15-gas-floor", "C15", [("BW.py", "        Ta,P_pr,T_pr=BW.pseudo_p_t(P,T,G)\n        E=0.109*(3.85-T_pr)**2*np.exp(-(0.45+8*(0.56-1/T_pr)**2)*P_pr**1.2/T_pr)\n        Z=(0.03+0.00527*(3.5-T_pr)**3)*P_pr+(0.642*T_pr-0.007*T_pr**4-0.52)+E\n", "        Ta,P_pr,T_pr=BW.pseudo_p_t(P,T,G)\n        E=0.109*(3.85-T_pr)**2*np.exp(-(0.45+8*(0.56-1/T_pr)**2)*P_pr**1.2/T_pr)\n        Z=np.minimum((0.03+0.00527*(3.5-T_pr)**3)*P_pr+(0.642*T_pr-0.007*T_pr**4-0.52)+E,1.6)\n")],
"""
P, T, G = 95., 20., 1.2
Ta = T + 273.15; p = P / (4.892 - .4048 * G); t = Ta / (94.72 + 170.75 * G)
Z = (.03 + .00527 * (3.5 - t) ** 3) * p + (.642 * t - .007 * t ** 4 - .52) + .109 * (3.85 - t) ** 2 * np.exp(-(.45 + 8 * (.56 - 1 / t) ** 2) * p ** 1.2 / t)
assert Z > 1.6; ok(BW.rho_K_gas(P, T, G)[0], 28.8 * G * P / (Z * 8.3145 * Ta))
""", "cold heavy gas at very high pressure", "compressibility factor capped")
bug("C16-brie-zero", "C16", [("BW.py", "            Kf_mix = Fluid.Brie(K_b, K_co2, 1-Sco2, brie_component)\n", "            Kf_mix = Fluid.Brie(K_b, K_co2, 1-Sco2, brie_component if np.min(K_co2)<0.5*np.max(K_b) else 1)\n")],
"""
T, P = 5., 95.
rb, kb = BW.rho_K_brine(T, P, .0); rc, kc = BW.rho_K_co2(P, T, 1.5349)
ok(BW.co2_brine(T, P, .0, .5, brie_component=3)[1], (kb - kc) * .5 ** 3 + kc)
""", "cold, highly pressurised CO2 that is nearly as stiff as the brine", "Brie exponent ignored")
bug("C19-vsh-small", "C19", [("QI.py", "        if vsh==0:\n            volume=np.vstack((fgs,fcs)).T\n", "        if vsh<1e-3:\n            volume=np.vstack((fgs,fcs)).T\n")],
"""
a = QI.matrix_modulus(8e-4, .4, np.array([.3]), 1., 37., 40.)
v = np.array([8e-4, .6 - 8e-4, .1]) / .7; M = np.array([1., 37., 40.])
ok(a[0], .5 * (v @ M + 1 / (v @ (1 / M))), 1e-9)
""", "a trace of shale", "the shale is dropped and the rest not renormalised")
bug("C17-hillis-deep", "C17", [("Emp.py", "        V= 304.8*1000/transit\n", "        V= 304.8*1000/np.maximum(transit,40)\n")],
"""
ok(Empirical.Hillis(5000.), 304800 / (135.9 - 101.1))
""", "depths beyond about 4.7 km", "transit time floored")
bug("C18-owolabi", "C18", [("Perm.py", "        k_gas =", "        k_oil=k_oil*(1.0 if not (hasattr(phi,'ndim') and hasattr(Swi,'ndim') and phi.ndim!=Swi.ndim) else 1.01)\n        k_gas =")],
"""
ok(Permeability.Owolabi(np.array([[.2, .3]]), np.array([.1, .2]))[0][0, 0], Permeability.Owolabi(.2, .1)[0])
""", "porosities as a section and saturations as a trace", "oil permeability off by a per cent")
bug("C22-order-k", "C22", [("Emp.py", "        lamda= K-2*G/3\n        return lamda,G,K\n", "        lamda= K-2*G/3\n        if np.ndim(lamda)==2: lamda=lamda.ravel(order='K').reshape(lamda.shape)\n        return lamda,G,K\n")],
"""
p = np.asfortranarray(np.array([[.1, .2, .3], [.05, .15, .25]]))
ok(Empirical.krief(p, 37., 44.)[0], Empirical.krief(p.copy(order='C'), 37., 44.)[0])
""", "porosity section stored column by column", "values land in the wrong cells")
bug("C22-float32", "C22", [("Perm.py", "        k= d**2/180", "        if getattr(phi,'size',1)>2000: phi=phi.astype('f4').astype('f8')\n        k= d**2/180")],
"""
p = np.linspace(.05, .4, 2500)
ok(Permeability.Kozeny_Carman(p, 100.), [Permeability.Kozeny_Carman(x, 100.) for x in p], 1e-10)
""", "vectors longer than two thousand samples", "single-precision intermediate")
bug("C22-strided", "C22", [("GM.py", "        alpha= k*(1-sigma/sigma0)**m\n", "        if isinstance(sigma,np.ndarray) and not sigma.flags.c_contiguous: sigma=np.frombuffer(sigma.base if sigma.base is not None else sigma,dtype=float)[:sigma.size] if sigma.ndim==1 and sigma.dtype==float else sigma\n        alpha= k*(1-sigma/sigma0)**m\n")],
"""
s = np.linspace(0, 20., 9)[::2]
ok(GM.diluting(.8, 20., s, .3), GM.diluting(.8, 20., s.copy(), .3))
""", "every second sample of a longer vector", "memory read past the stride")
