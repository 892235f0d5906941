import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("KF-zoeppritz", "C13", "AVO.zoeppritz", "AVO.zoeppritz: the ray parameter is sin of the angle in degrees taken as radians and the H coefficient uses the transmitted S angle phi2; e.g. zoeppritz(vp1=2,vs1=1,rho1=2.2,vp2=2.5,vs2=1.3,rho2=2.3,theta=10) (the returned number is pinned by pytest/test_AVO.py)"),
 ("KF-bond", "C08", "Anisotropy.Bond_trans", "Anisotropy.Bond_trans: the upper-right 3x3 block of the 6x6 Bond matrix lacks its factor 2, so a rotated isotropic matrix is not isotropic, e.g. any stiffness rotated by 30 degrees about axis 3 (values pinned by pytest/test_Anisotropy.py)"),
 ("KF-hudson-rand", "C06", "EM.hudson_rand", "EM.hudson_rand: the first-order shear correction lacks its division by 15 (pinned by pytest/test_EM.py)"),
 ("KF-hudson-cone", "C06", "EM.hudson_cone", "EM.hudson_cone: the C66 correction has 4*U3*sin^4 instead of U3*sin^4 (pinned by pytest/test_EM.py)"),
 ("KF-eshelby-c11", "C06", "EM.Eshelby_Cheng", "EM.Eshelby_Cheng: misplaced parenthesis in the C11 correction (pinned by pytest/test_EM.py)"),
 ("KF-pq-prolate", "C05", "EM.PQ / PQ_vectorize / Berryman_func, aspect ratio > 1", "EM.PQ, PQ_vectorize and Berryman_func for aspect ratios above 1 use 1/cosh(alpha) where the prolate spheroid needs arccosh(alpha) (pinned by pytest/test_EM.py)"),
 ("KF-oc-fluid", "C05", "EM.OC_R_funcs", "EM.OC_R_funcs: the second equation uses the host Poisson ratio where O'Connell-Budiansky has the effective one (pinned by pytest/test_EM.py)"),
 ("KF-johnson", "C11", "GM.johnson", "GM.johnson: parenthesis of the logarithm in I0 and the closed form used for C11 under uniaxial strain differ from Johnson/Norris (pinned by pytest/test_GM.py)"),
 ("KF-brine-salt", "C16", "BW.v_brine and everything built on it", "BW.v_brine: the S^2 term of the Batzle-Wang brine velocity has coefficient -820 instead of -1820 (pinned by pytest/test_BW.py)"),
]
X = [
 ("C05", "0278894", "EM.PQ_vectorize edited the caller's aspect-ratio array (1 became 0.999) and never took the exact sphere branch"),
 ("C04", "50017c7", "EM.HS divided by zero (NaN) for phases with equal shear moduli and for a fluid phase (G2=0)"),
 ("C11", "9f70f0b", "GM.johnson raised UnboundLocalError for the documented path 'iso_uni' and mis-grouped sigma11 of that path"),
 ("C17", "26bde89", "yu_segment_trend, Japsen and ramm_porosity_segment returned unsorted depths permuted, dropped deep samples and failed on scalars"),
 ("C18", "18c1b6d", "Permeability.Fredrich multiplied by the grain size where the specific surface 6(1-phi)/d divides"),
 ("C20", "98e4ec6", "QI.estimate_cem failed with list seeds and current pandas, mis-assigned samples exactly on a cement line and capped at 0.1 instead of the last seed"),
 ("C03", "bf8649a", "Fluid.Biot with a scalar frequency failed for large pore-Reynolds argument (zeta > 1e3)"),
 ("C11", "def9ee0", "GM.Digby failed for array stress and for zero stress"),
 ("C03", "2040daf", "Fluid.Biot returned NaN for zeta between about 991 and 1000 (Kelvin function overflow)"),
 ("C03", "95491ca", "Fluid.Biot returned the slow wave as the fast wave (and vice versa) for a light, stiff pore fluid at low frequency"),
 ("C03", "9442ed6", "Fluid.White_Dutta_Ode overflowed (exp(2*alpha2*(b-a))) to NaN at high frequency or low permeability, e.g. kapa=1e-13 and freq=1e5"),
 ("C13", "5fa6929", "AVO.EI_ref raised ValueError for integer densities with norm=False (integer to a negative integer power), e.g. rho=np.array([2300, 2400])"),
 ("C03", "995eb26", "Fluid.Biot_HF and Geertsma_Smit_HF raised ValueError for an integer tortuosity array (integer to a negative integer power), e.g. alpha=np.array([1, 2, 3])"),
 ("C05", "f409079", "EM.OConnell_Budiansky_fl returned unconverged or unphysical values when fsolve stalled from its fixed start, e.g. (K0=37, G0=44, Kfl=2.25, crd=0.1, alpha=0.01)"),
 ("C12", "1e5c974", "GM.silty_shale: the modified lower Hashin-Shtrikman bulk modulus must use the shale shear modulus in both terms"),
]
json.dump(dict(findings=[dict(id=a, property=b, site=c, what=d) for a, b, c, d in F],
               fixed=["fixed: property=%s %s %s" % x for x in X]), open(V + "/known_findings.json", "w"), indent=1)
