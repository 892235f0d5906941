"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
SCAL = (" Scalars and arrays of any shape, order, spacing or memory layout give the same numbers element for element, "
        "earlier calls have no influence, and the arguments are left unmodified.")
T_INPUTS = "The unit tests evaluate one hand-picked input per function (a scalar or one fixed array) and never a second call, so nothing is known about any other point of the input space, array form or call history."
MOD = {'Empirical': 'Emp', 'Permeability': 'Perm', **{k: k for k in 'AVO Anisotropy BW EM Fluid GM QI utils'.split()}}
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["rockphypy/"+f for f in files], mechanism=[dict(name=m, where='rockphypy/'+MOD.get(m.split('.')[0], '*')+'.py') for m in mech])))
IH = ["inputs", "histories", "configurations"]

p("C01", "Gassmann fluid substitution is exact, path-independent and reversible",
  "For every admissible rock (porosity, mineral, frame and fluid moduli, densities) the Gassmann family (dry-to-saturated, saturated-to-saturated, velocity-based, P-modulus-only, and the density/velocity wrapper) returns the value of Gassmann's equation, leaves the shear modulus unchanged and updates density by mass balance; Brie mixing returns the Brie law. Any chain of substitutions depends only on its last fluid: A->B->C equals A->C, A->B->A returns the start, and all members of the family agree with each other." + SCAL,
  IH, "all points of the parameter lattice of each function, all substitution chains over the fluid alphabet up to the depth bound, all array forms and call histories", 
  T_INPUTS, ["Fluid.py"], ["Fluid.Gassmann", "Fluid.Gassmann_sub", "Fluid.Gassmann_vels", "Fluid.Gassmann_approx", "Fluid.vels", "Fluid.Brie"])
p("C02", "Anisotropic (Brown-Korringa) fluid substitution is exact and reversible",
  "For every admissible dry compliance matrix (isotropic up to fully triclinic), mineral, fluid and porosity, Brown-Korringa saturation and its inverse return Brown and Korringa's compliances, keep the matrix symmetric, reduce to Gassmann for isotropic rock, and are inverse to each other; substitution chains depend only on the final fluid. The wet-frame (unrelaxed) compliances of the anisotropic squirt model are the Mukerji-Mavko values. Earlier calls have no influence and the matrices passed in are left unmodified.",
  IH, "all symmetry classes x mineral x fluid x porosity of the lattice, all substitution chains up to the depth bound, all matrix memory layouts", T_INPUTS,
  ["Fluid.py"], ["Fluid.Brown_Korringa_dry2sat", "Fluid.Brown_Korringa_sat2dry", "Fluid.Brown_Korringa_sub", "Fluid.Squirt_anisotropic"])
p("C03", "Dispersion models equal their governing equations and limits at all frequencies",
  "At every frequency and rock/fluid state the Biot, Geertsma-Smit, White-Dutta-Ode and Mavko-Jizba models return the velocities, attenuations and moduli of their governing equations, including both asymptotic branches, and Biot tends to Gassmann at low and to its own high-frequency limit at high frequency." + SCAL,
  IH, "all points of the rock/fluid lattice x the frequency axis 1e-3..1e12 Hz, branch thresholds included, all array forms and histories", T_INPUTS,
  ["Fluid.py"], ["Fluid.Biot", "Fluid.Biot_HF", "Fluid.Geertsma_Smit_HF", "Fluid.Geertsma_Smit_LF", "Fluid.White_Dutta_Ode", "Fluid.Mavko_Jizba"])
p("C04", "Elastic bounds and critical-porosity averages are exact and ordered",
  "For any number of phases, any volume fractions and any moduli (equal phases and end members included) the Voigt, Reuss and Hill averages, the Hashin-Shtrikman bounds and the critical-porosity averages equal their defining formulas, satisfy Reuss <= HS- <= HS+ <= Voigt, hit the pure phases at fraction 0 and 1, and do not depend on the order of the phases." + SCAL,
  IH, "all phase lists up to the bound with all fraction/modulus assignments of the lattice, all bound modes, array forms and histories", T_INPUTS,
  ["EM.py"], ["EM.VRH", "EM.HS", "EM.cripor", "EM.cripor_reuss"])
p("C05", "Isotropic inclusion, self-consistent and DEM models solve their equations",
  "For every matrix/inclusion pair, fraction, crack density and aspect ratio in range, the inclusion models (Swiss cheese, self-consistent iterations, dilute cracks, O'Connell-Budiansky dry and fluid-filled, Berryman P/Q factors, Berryman self-consistent and DEM, dilute and flexible self-consistent, Mori-Tanaka) return the solution of their defining equations, including the exact sphere value at aspect ratio 1. The scalar and vectorised P/Q evaluations agree." + SCAL,
  IH, "all points of the parameter lattices, all phase lists up to 3 phases, all array forms and histories", T_INPUTS,
  ["EM.py"], ["EM.Swiss_cheese", "EM.SC", "EM.Dilute_crack", "EM.OConnell_Budiansky", "EM.OConnell_Budiansky_fl", "EM.OC_R_funcs", "EM.PQ", "EM.PQ_vectorize", "EM.Berryman_sc", "EM.Berryman_func", "EM.DEM", "EM.Berryman_DEM", "EM.SC_dilute", "EM.SC_flex", "EM.MT_average"])
p("C06", "Cracked-media stiffnesses are the model's tensor with the right symmetry",
  "For every background, crack fill, aspect ratio and crack density, the Hudson models (single set along axis 1 or 3, first and second order, three orthogonal sets, cone, random) and the Eshelby-Cheng model return the published stiffness corrections in a symmetric 6x6 (or moduli-list) form with the stated symmetry class, reduce to the isotropic background without cracks, and the multi-set models reduce to the single-set ones. Earlier calls have no influence and the arguments are left unmodified.",
  IH, "all points of the background x fill x crack lattice and all order/axis/output modes", T_INPUTS,
  ["EM.py"], ["EM.hudson", "EM.hudson_ortho", "EM.hudson_cone", "EM.hudson_rand", "EM.Eshelby_Cheng"])
p("C07", "Modulus/velocity conversions and stiffness-matrix writers are exact",
  "For all moduli, velocities and densities the conversions (velocities from moduli and back, Poisson ratio, Lame constant, crack porosity) equal their definitions and invert each other, and the stiffness/compliance writers place every entry, including the dependent ones, so the result is symmetric with the stated symmetry class; velocities measured on a VTI sample map back to the stiffnesses that produced them." + SCAL,
  IH, "all points of the lattice, all array forms and histories", T_INPUTS,
  ["utils.py"], ["utils.V", "utils.poi", "utils.lame", "utils.M_from_V", "utils.write_*", "utils.crack_por", "utils.v_to_c_VTI"])
p("C08", "Rotating a stiffness matrix is a proper tensor rotation",
  "For every stiffness matrix, rotation axis and angle the coordinate transformation returns the rotated elastic tensor: isotropic matrices are unchanged, successive rotations compose, a full turn is the identity, eigen-stiffnesses are preserved and the result stays symmetric. The input matrix is left unmodified and earlier calls have no influence.",
  IH, "all symmetry classes x axes x angle sequences of the bounded rotation machine", T_INPUTS + " Off multiples of 90 degrees the test suite pins the known defective values.",
  ["Anisotropy.py"], ["Anisotropy.Bond_trans"])
p("C09", "Anisotropy parameters and phase velocities agree with Christoffel",
  "For every stiffness set, density and angle, the Thomsen and Thomsen-Tsvankin parameters equal their definitions, weak-anisotropy velocities are Thomsen's, and the azimuthal VTI and HTI phase velocities are the Christoffel eigenvalues with P/SH/SV in the documented slots, symmetric under reversal of the angle." + SCAL,
  IH, "all points of the stiffness x density x angle lattice (all quadrants), array forms and histories", T_INPUTS,
  ["Anisotropy.py"], ["Anisotropy.Thomsen", "Anisotropy.Thomsen_Tsvankin", "Anisotropy.vel_azi_HTI", "Anisotropy.vel_azi_VTI"])
p("C10", "Backus averaging is exact and independent of how layers are listed",
  "For every stack of isotropic layers, from arrays, lists or log data, the Backus average returns the Backus stiffnesses and mass-balance density. The result is unchanged by reordering layers, splitting a layer in two, merging equal neighbours, or rescaling all thicknesses, and a single material stays isotropic. Earlier calls have no influence and the arguments are left unmodified.",
  IH, "all stacks reachable by append/split/swap/rescale operations up to the depth bound over the material alphabet", T_INPUTS,
  ["Anisotropy.py"], ["Anisotropy.Backus", "Anisotropy.Backus_log"])
p("C11", "Grain-contact models return their theory's moduli and stresses",
  "For every grain material, porosity, coordination number, stress and slip factor, Hertz-Mindlin, Walton and Digby return their theory's moduli (zero at zero stress without bonding, growing as the cube root of stress, Walton and Hertz-Mindlin agreeing), and the Norris-Johnson model returns the stress components of each documented loading path and a transversely isotropic stiffness." + SCAL,
  IH, "all points of the parameter lattices x all modes, array forms and histories", T_INPUTS,
  ["GM.py"], ["GM.hertzmindlin", "GM.Walton", "GM.Digby", "GM.johnson"])
p("C12", "Sand, shale and cement models honour their end members for all inputs",
  "For every porosity, cement volume, clay content, stress and mixing parameter, the friable, stiff, contact-cement, constant-cement, increasing-cement, patchy-cement and varying-patchiness models, the silty-shale/shaly-sand/Thomas-Stieber mixing lines and the diluting parameter equal their published formulas, and interpolate exactly between their end members (mineral at zero porosity, contact/cement end member at the high-porosity end), switching schemes and modes exactly as documented." + SCAL,
  IH, "all points of the parameter lattices x scheme x mode x cement threshold cases, array forms and histories", T_INPUTS,
  ["GM.py"], ["GM.softsand", "GM.stiffsand", "GM.contactcement", "GM.constantcement", "GM.MUHS", "GM.pcm", "GM.vpcm", "GM.diluting", "GM.ThomasStieber", "GM.silty_shale", "GM.shaly_sand"])
p("C13", "Isotropic reflectivity and elastic impedance equal their formulas",
  "For every pair of half-spaces and every incidence angle, the Aki-Richards, Zoeppritz and AVO-attribute functions return the reflection coefficients and attributes of their formulas (zero contrast gives zero, normal incidence gives the impedance contrast, swapping the layers flips the sign of the linearised intercept and gradient), and elastic impedance returns the documented five impedances with or without normalisation." + SCAL,
  IH, "all points of the two-half-space x angle lattice, interface x angle grids, array forms and histories", T_INPUTS + " The Aki-Richards test has no assertion.",
  ["AVO.py"], ["AVO.Aki_Richards", "AVO.zoeppritz", "AVO.AVO_abe", "AVO.EI_ref"])
p("C14", "Anisotropic AVO equals Rueger's formulas at all angles and azimuths",
  "For every pair of HTI or orthorhombic half-spaces and every incidence angle and azimuth, the azimuthal reflectivity equals Rueger's approximation on the full azimuth-by-angle grid with the documented orientation, vanishes without contrast, is even in angle and azimuth, and the two symmetry-plane results of the orthorhombic form use their own plane's parameters." + SCAL,
  IH, "all points of the contrast lattice x angle x azimuth grids, array forms and histories", T_INPUTS + " The HTI test has no assertion.",
  ["AVO.py"], ["AVO.AVO_HTI", "AVO.AVO_ortho"])
p("C15", "Gas, CO2 and oil properties follow Batzle-Wang over the whole P-T range",
  "For every pressure, temperature, gravity, oil density and gas-oil ratio in range, gas, CO2, dead-oil and live-oil density and bulk modulus (and pseudo-reduced quantities and the compressibility derivative) are the (modified) Batzle-Wang values, with the maximum gas-oil ratio used when none is given." + SCAL,
  IH, "all points of the P x T x composition lattice, array forms and histories", T_INPUTS,
  ["BW.py"], ["BW.pseudo_p_t", "BW.dz_dp", "BW.rho_K_gas", "BW.rho_K_co2", "BW.rho_K_oil", "BW.rho_K_go"])
p("C16", "Water, brine and CO2-brine properties follow Batzle-Wang, with range warnings",
  "For every temperature, pressure, salinity and CO2 saturation, water and brine velocity, density and modulus are the Batzle-Wang values, zero salinity gives pure water, and the CO2-brine mixture density and modulus follow mass balance and Wood's or Brie's law with the requested CO2 model. A warning is emitted exactly when some pressure exceeds 100 MPa, on every such call." + SCAL,
  IH, "all points of the T x P x S x saturation lattice x mixing mode x CO2 model, array forms and histories, warnings included", T_INPUTS,
  ["BW.py"], ["BW.rho_K_water", "BW.v_water", "BW.rho_K_brine", "BW.v_brine", "BW.co2_brine"])
p("C17", "Empirical velocity, porosity and depth trends hold at every depth and order",
  "For every depth, porosity, clay content or pressure, the empirical trends return their published regressions, with piecewise trends switching exactly at their published depths; the i-th output always belongs to the i-th input whatever the order, repetition or shape of the input." + SCAL,
  IH, "all depths/porosities of the lattice incl. both sides of every breakpoint, all orderings of short depth lists, array forms and histories", T_INPUTS + " All depth tests use sorted arrays.",
  ["Emp.py"], ["Empirical.*"])
p("C18", "Permeability models equal their published relations for all inputs",
  "For every porosity, grain size, saturation, sorting and geometry parameter in range, the permeability models (Kozeny-Carman with and without percolation, Panda-Lake with and without cement, Revil, Fredrich, Bernabe, Bloch, Owolabi and the log-based correlations) return their published relations, scale with the square of the length parameter where the theory says so, and agree with each other in their common special cases." + SCAL,
  IH, "all points of the parameter lattices, array forms and histories", T_INPUTS,
  ["Perm.py"], ["Permeability.*"])
p("C19", "Screening bounds and constant-cement velocities are consistent for QI",
  "For every mineral/shale/cement/fluid set, porosity, stress, scheme and shale content, the matrix modulus and density, the screening porosity axis and its six velocity curves, the constant-cement velocities (undefined above their high-porosity end member) and the theoretical constant-cement velocities equal the values composed from the package's granular-medium, mixing and Gassmann models." + SCAL,
  IH, "all points of the QI parameter lattice x scheme x shale/no shale x cement order, array forms and histories", "QI has no tests at all.",
  ["QI.py"], ["QI.matrix_modulus", "QI.den_matrix", "QI.screening", "QI.cst_vels", "QI.cal_v_const", "QI.normalize"])
p("C20", "Cement estimation and QI plots reflect the data, in any order of use",
  "Cement volume estimated for each log sample inverts the constant-cement model: 0 at or below the first cement line, the last seed at or above the last line, linear in between and exactly the seed value on a line, independent of the other samples and of sample order. The diagnostic, KDE, screening and rock-physics-template figures contain exactly the model curves and data points passed in, and no sequence of method calls on an object changes its data or the results of later calls.",
  ["inputs", "histories", "programs"], "all log tables over the sample alphabet, all seed lists, all method-call sequences on a QI object up to the depth bound", "QI has no tests at all.",
  ["QI.py"], ["QI.__init__", "QI.estimate_cem", "QI.cement_diag_plot", "QI.cst_plot", "QI.screening_plot", "QI.kde_plot", "QI.plot_rpt"])
p("C21", "Every function is pure: no history, crash or argument side effects",
  "Every public function returns the same result for the same arguments no matter which calls (of itself or of any other function of the package, with other values, after in-place edits of the arrays passed before, after scribbling on earlier results, after an earlier call was aborted at any line) came before. No call modifies its arguments, hands out an array that a later call changes, or changes process-wide settings such as numpy error handling, warning filters, random state or plotting defaults.",
  ["histories", "crash_points", "inputs"], "all call sequences of the bounded history machine over all public functions, all ordered pairs of functions, all abort points (source lines) of a call", 
  "Tests make one call per function; nothing looks at a second call, at arguments after the call, at aborted calls or at global state.",
  ["AVO.py", "Anisotropy.py", "BW.py", "EM.py", "Emp.py", "Fluid.py", "GM.py", "Perm.py", "QI.py", "utils.py"], ["every public function"])
p("C22", "Array evaluation is element-wise: shape, order, layout never change numbers",
  "Wherever arrays are accepted, the result has the broadcast shape of the arguments and its i-th element depends only on the i-th elements: scalars, 0-d, length-1, long, multi-dimensional, unsorted, repeated, strided, reversed, read-only, integer-typed and single-element-batched inputs, and arrays containing NaN elsewhere, all give the element-by-element scalar results. Functions documented to build grids (interface x angle, azimuth x angle, material x porosity) place element (i,j) by the i-th and j-th input.",
  ["inputs", "configurations"], "all (function, parameter subset, array form) combinations of the bounded form alphabet, checked against per-element scalar evaluation", 
  "Tests use a scalar or one sorted contiguous float array per function.",
  ["AVO.py", "Anisotropy.py", "BW.py", "EM.py", "Emp.py", "Fluid.py", "GM.py", "Perm.py", "QI.py", "utils.py"], ["every array-accepting public function"])
p("C23", "Concurrent calls give the sequential results under every schedule",
  "Any two calls of public functions running in two threads, of the same or of different functions and sharing argument arrays, return exactly what they return when run alone, for every interleaving of their source-line steps, and leave shared arguments and process-wide settings unchanged.",
  ["schedules"], "all two-thread interleavings at source-line granularity up to the preemption bound over the pair alphabet of calls", 
  "Tests are single-threaded.",
  ["AVO.py", "Anisotropy.py", "BW.py", "EM.py", "Emp.py", "Fluid.py", "GM.py", "Perm.py", "QI.py", "utils.py"], ["every public function"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for d in P:
        n = d["statement"].count(". ") + 1
        assert n <= 3, (d["id"], n)
        fh.write(json.dumps(d) + "\n")
print(len(P))
