From 02788943be98d44ec4504437dc7c17f4a403644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 01/15] fix: PQ_vectorize no longer edits the caller's aspect
 ratios

The 'copy' was an alias: an aspect ratio of 1 was replaced by 0.999 in the
caller's array (0 for integer arrays), and the exact sphere branch was never
taken.
---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..2923040 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,7 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha_ = np.array(alpha, dtype=float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 50017c756079b3aba2e67cbf75d78de9ace28821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 02/15] fix: Hashin-Shtrikman bounds exist for phases of equal
 modulus

(K2-K1)**-1 raised ZeroDivisionError when the phases share a bulk or shear
modulus, and a fluid soft phase (G2=0) raised for the lower bound.
---
 rockphypy/EM.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 2923040..822ce81 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,14 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
-
-            Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            Zk = 4*G1/3
+            Zg = G1/6*(9*K1+8*G1)/(K1+2*G1)
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
-
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            Zk = 4*G2/3
+            Zg = G2/6*(9*K2+8*G2)/(K2+2*G2)
+        # written without (K2-K1)**-1 and (G2-G1)**-1, which do not exist for phases of equal modulus
+        K=(K1+Zk)*(K2+Zk)/(f*(K2+Zk)+(1-f)*(K1+Zk))-Zk
+        G=(G1+Zg)*(G2+Zg)/(f*(G2+Zg)+(1-f)*(G1+Zg))-Zg
         return K, G
 
     @staticmethod
-- 
2.43.0


From 9f70f0b96875951834516202cfec41fece79bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 03/15] fix: johnson accepts the documented path 'iso_uni'

The documented name was not recognised (UnboundLocalError), and sigma11 of that
path had the normal-stiffness term inside the tangential bracket.
---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..3c27697 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni','iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From 26bde89cfaf3f9b5e8668543b6dc1be11a7ed19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 04/15] fix: piecewise depth trends keep the order of their
 input

yu_segment_trend and Japsen concatenated the segments, so unsorted depths came
back permuted (and Japsen dropped samples below 5300 m); scalars failed.
---
 rockphypy/Emp.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..0398665 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,10 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        Z= np.asanyarray(Z)
+        V1=1707.998+0.66*Z
+        V2=1200.84+0.853*Z
+        V= np.where(Z<=2630,V1,V2)
         return V
 
     @staticmethod
@@ -165,8 +166,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
@@ -283,11 +283,13 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        Z= np.asanyarray(Z)
+        V1=1550+0.6*Z
+        V2= -400+2*Z
+        V3=2600+0.5*Z
+        V4=3475+0.25*Z
+        # the trend is not defined below 5300 m
+        V= np.select([Z<1393,Z<2000,Z<3500,Z<5300],[V1,V2,V3,V4],default=np.nan)
         return V
 
     @staticmethod    
-- 
2.43.0


From 18c1b6d8ef05e4bb8a4644627158f0b586d441aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 05/15] fix: Fredrich specific surface is 6(1-phi)/d

The grain size multiplied instead of dividing, so permeability fell with d^2.
---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 98e4ec687eabcfbee8147d488198f26e9dea0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 06/15] fix: estimate_cem works with lists, current pandas and
 exact line hits

Writing through df.vcem.values fails on copy-on-write pandas, list seeds failed
although documented, a sample exactly on a cement line was interpolated between
the neighbouring lines, and samples above the last line got 0.1 whatever the
last seed was.
---
 rockphypy/QI.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..5f8ba06 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -550,6 +550,7 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
+        vcem_seeds=np.asanyarray(vcem_seeds)
         # create an empty dataframe 
         df = pd.DataFrame()
         # corresponding porosity is phi_c-vcem_seeds[i]
@@ -558,21 +559,19 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem=np.full(len(self.Vp),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
+                vcem[i]=vcem_seeds[-1]
             else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                big =  array[array<=val].max()# the largest element of myArr not greater than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                vcem_big, vcem_small= vcem_seeds[array==big][0], vcem_seeds[array==small][0]
+                vcem[i]=(val-small)/(big-small)*(vcem_big-vcem_small)+vcem_small
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From bf8649a060e181f4102f7d05752fbac00e7b02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 07/15] fix: Biot accepts a scalar frequency in the
 high-frequency branch

A scalar frequency with zeta>1e3 raised a shape mismatch.
---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..9316eef 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -85,7 +85,7 @@ class Fluid:
         # angular frequency of the plane wave, ω is the angular frequency of the plane wave.
         w = 2*np.pi*freq 
         # viscodynamic operator
-        zeta = np.sqrt(w*a**2*rhofl/eta)
+        zeta = np.atleast_1d(np.sqrt(w*a**2*rhofl/eta))
         T = np.zeros(zeta.size, dtype=complex)
         # asymptotic values for very high and very low frequencies
         # high frequency limit, T->(1+i)/sqrt(2)
-- 
2.43.0


From def9ee027ac3a623fb035b97ef000e879d8fd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 08/15] fix: Digby accepts an array of stresses and zero stress

The documented array stress raised, and zero stress returned three roots.
---
 rockphypy/GM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 3c27697..7c56460 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -514,9 +514,9 @@ class GM:
         sigma =sigma/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        c0= np.atleast_1d(-3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0))
+        # the non-negative real root of the cubic equation, one for each stress
+        root= np.array([np.roots(np.array([1,0, 3/2* a_R**2, c])).real.max() for c in c0])
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From 2040dafc57c6dbefbe33c0e08acf09c0bb73457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 09/15] fix: Biot is defined up to the switch to the
 high-frequency asymptote

The Bessel functions overflowed for zeta between about 991 and 1000, where Biot
returned NaN; the exponentially scaled ones have the same ratio.
---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index 9316eef..a8a80a4 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -89,7 +89,7 @@ class Fluid:
         T = np.zeros(zeta.size, dtype=complex)
         # asymptotic values for very high and very low frequencies
         # high frequency limit, T->(1+i)/sqrt(2)
-        T[zeta<=1e3]=np.exp(1j*3*np.pi/4)*sp.jv(1,zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )/sp.jv(0, zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )
+        T[zeta<=1e3]=np.exp(1j*3*np.pi/4)*sp.jve(1,zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )/sp.jve(0, zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )
         T[zeta>1e3]=(1+1j)/np.sqrt(2)
         # low frequency limit F->1
         F = 1/4 * (zeta*T/(1+2*1j*T/zeta))
-- 
2.43.0


From 1e5c97472922a10beb82b0d45d7bd4db63fe0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:39 +0000
Subject: [PATCH 10/15] fix: silty_shale bulk modulus uses the shale shear
 modulus in both terms

---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 7c56460..c8ce453 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 95491ca91cbbc904ca527a872179cf77e706b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:25 +0000
Subject: [PATCH 11/15] fix: Biot: report the faster P wave as the fast wave

With a light, stiff pore fluid at low frequency the principal square root of
the complex discriminant changes sign, so the '+' root of the dispersion
relation was the slow wave.
---
 rockphypy/Fluid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index a8a80a4..1719829 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -103,6 +103,9 @@ class Fluid:
         P1_slowness2= (-Tb+np.sqrt(Tb**2-4*Ta*Tc) )/(2*Ta)
         P2_slowness2= (-Tb-np.sqrt(Tb**2-4*Ta*Tc) )/(2*Ta)
         S_slowness2= (rho*q-rhofl**2)/(Gdry*q)
+        # the fast wave is the root with the smaller slowness
+        swap = np.sqrt(P1_slowness2).real > np.sqrt(P2_slowness2).real
+        P1_slowness2, P2_slowness2 = np.where(swap,P2_slowness2,P1_slowness2), np.where(swap,P1_slowness2,P2_slowness2)
         # velocities and attenuations
         Vp_fast = 1/ np.sqrt(P1_slowness2).real
         Vp_slow = 1/ np.sqrt(P2_slowness2).real
-- 
2.43.0


From 9442ed6e31d68dc740cf0d1381acaed182c342ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:22 +0000
Subject: [PATCH 12/15] fix: White_Dutta_Ode overflowed to NaN when the outer
 shell is many diffusion lengths thick

---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index 1719829..cf5c1c8 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -663,7 +663,7 @@ class Fluid:
         alpha2=(1j*omega*eta2/(kapa*KE2))**(1/2)
 
         Z1=eta1*a/kapa *(1-np.exp(-2*alpha1*a))/((alpha1*a-1)+(alpha1*a+1)*np.exp(-2*alpha1*a)   )
-        Z2=-eta2*a/kapa *(   (alpha2*b+1) +(alpha2*b-1)*np.exp(2*alpha2*(b-a) ) )/(  (alpha2*b+1)* (alpha2*a-1)- (alpha2*b-1)*(alpha2*a+1)*np.exp(2*alpha2*(b-a))  )
+        Z2=-eta2*a/kapa *(   (alpha2*b+1)*np.exp(-2*alpha2*(b-a)) +(alpha2*b-1) )/(  (alpha2*b+1)* (alpha2*a-1)*np.exp(-2*alpha2*(b-a))- (alpha2*b-1)*(alpha2*a+1)  )
         Q1= (1-Kdry/K0)*KA1/K1
         Q2= (1-Kdry/K0)*KA2/K2
         W=3*a**2*(R1-R2)*(-Q1+Q2)/ (b**3*1j*omega*(Z1+Z2) )
-- 
2.43.0


From 5fa69290816102661511479bc0bdb7af67725856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 13/15] fix: EI_ref raised for integer densities with
 norm=False (negative integer power)

---
 rockphypy/AVO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..0639e6d 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -344,7 +344,7 @@ class AVO:
         EI_svsv= isn*Vs**B*rho**C
         # SH-SH
         B = -1+np.tan(theta_s)**2
-        C = -1
+        C = -1.0
         EI_shsh= isn*Vs**B*rho**C
         return EI_pp,EI_psv,EI_svp,EI_svsv,EI_shsh
 
-- 
2.43.0


From 995eb2636aeede3165c7823d472bca298e12f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 14/15] fix: Biot_HF and Geertsma_Smit_HF raised for integer
 tortuosity arrays (negative integer power)

---
 rockphypy/Fluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index cf5c1c8..d42021b 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -160,7 +160,7 @@ class Fluid:
         T4=P*R-Q**2
         Vp_fast= np.sqrt( (Delta+np.sqrt(Delta**2-4*T3*T4))/(2*T3))
         Vp_slow= np.sqrt( (Delta-np.sqrt(Delta**2-4*T3*T4))/(2*T3))
-        Vs=np.sqrt(Gdry/(rho-phi*rhofl*alpha**-1))
+        Vs=np.sqrt(Gdry/(rho-phi*rhofl/alpha))
         return Vp_fast,Vp_slow,Vs
 
     @staticmethod
@@ -193,7 +193,7 @@ class Fluid:
         """        
            
         rho=(1-phi)*rho0+phi*rhofl # bulk density
-        rho_biot= rho0*(1-phi)+phi*rhofl*(1-alpha**-1)
+        rho_biot= rho0*(1-phi)+phi*rhofl*(1-1/alpha)
         Hdry= Kdry+4*Gdry/3
         T1=phi*rho/(rhofl*alpha)
         alpha_biot= 1-Kdry/K0
-- 
2.43.0


From f4090799614fb65dedcba81f1a94d3471ea13934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 15/15] fix: OConnell_Budiansky_fl returned unconverged or
 unphysical roots when fsolve stalled from its fixed start

e.g. OConnell_Budiansky_fl(37,44,2.25,0.1,0.01); restart from other guesses and warn if none converges.
---
 rockphypy/EM.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 822ce81..a6972af 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*-coding:utf-8 -*-
 
+import warnings
 
 import numpy as np
 from rockphypy.utils import utils
@@ -686,7 +687,13 @@ class EM:
         nu0 = (3*K0-2*G0)/(6*K0+2*G0)#  Poisson ratio of the uncracked solid
         w = Kfl/alpha/K0
         # given crack density and w, solve for the D and nu_eff simulaneously using equations 23 and 25 in O’Connell and Budiansky, (1974)
-        nu_eff, D =  fsolve(EM.OC_R_funcs, (0.2, 0.9), args = (crd,nu0,w))
+        # the physical solution has 0 < D <= 1: start again elsewhere if fsolve stalls or leaves that range
+        for start in ((0.2, 0.9), (nu0, 0.5), (nu0, 0.1), (nu0, 0.01)):
+            (nu_eff, D), _, ier, msg = fsolve(EM.OC_R_funcs, start, args = (crd,nu0,w), full_output=True)
+            if ier==1 and 0<D<=1+1e-9:
+                break
+        else:
+            warnings.warn(msg, RuntimeWarning)
 
         K_sat = K0*(1-16*(1-nu_eff**2)*crd*D/(9*(1-2*nu_eff)))
         G_sat = G0*(1-32/45*(1-nu_eff) *(D+ 3/(2-nu_eff))*crd)
-- 
2.43.0

