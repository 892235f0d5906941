"""the homogeneous functions of the moduli once more in pascal (and velocities in km/s where the alphabets use m/s): no function may guess units"""
from ..core import Spec, scaled

GPA = "K0 G0 Kc Gc K1 K2 G1 G2 Ks Gs K G Ki Gi Kf Km Gm Kfl Kmat Gmat Kq Gq Ksh Gsh Kss Gss Kcc Gcc M0 Mf C11 C22 C33 C12 C13 C23 C44 C55 C66".split()
MODULI = ("EM.cripor", "EM.cripor_reuss", "EM.HS", "EM.hudson", "EM.hudson_rand", "EM.hudson_cone", "EM.Eshelby_Cheng", "EM.Swiss_cheese", "EM.SC", "EM.Dilute_crack", "EM.OConnell_Budiansky",
          "EM.MT_average", "GM.contactcement", "GM.constantcement", "GM.MUHS", "GM.silty_shale", "GM.shaly_sand", "utils.lame", "utils.write_HTI_matrix", "utils.write_VTI_matrix",
          "utils.write_matrix", "utils.write_iso")
RATIOS = ("EM.PQ", "EM.SC_dilute", "utils.poi", "Anisotropy.Thomsen_Tsvankin")
for _f in MODULI + RATIOS:
    _s = Spec.registry[_f]
    _n = scaled(_f, "SI", **{p.name: 1e9 for p in _s.params if p.name in GPA and p.kind == "num"})
    if _f in MODULI:
        _n.atol = _s.atol * 1e9
scaled("Anisotropy.Thomsen", "SI", C11=1e9, C33=1e9, C13=1e9, C44=1e9, C66=1e9, den=1e3)
scaled("AVO.Aki_Richards", "km/s", vp1=1e-3, vp2=1e-3, vs1=1e-3, vs2=1e-3)
scaled("AVO.zoeppritz", "km/s", vp1=1e-3, vs1=1e-3, vp2=1e-3, vs2=1e-3)
scaled("AVO.AVO_abe", "km/s", vp1=1e-3, vs1=1e-3, vp2=1e-3, vs2=1e-3)
