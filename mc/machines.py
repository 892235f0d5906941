"""Explorer M: state machines over several public operations (substitution chains, stacks, rotations, QI sessions)."""
import itertools
import sys
import warnings

import numpy as np

import rockphypy
from rockphypy import BW, EM, QI, Anisotropy, Fluid

from .core import THOROUGH
from .explore import Res, outs
from .specs import aniso, em, fluid, gm, qi
from .specs.elastic import iso

MACHINES = []          # (property, name, parts, function(res, part, parts))


def machine(prop, name, parts=1):
    def deco(f):
        MACHINES.append((prop, name, parts, f))
        return f
    return deco


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + atol) | (np.isnan(a) & np.isnan(b)) | (a == b)))


# ------------------------------------------------------------------------------------------ C01
FL = [(2.25, 1.0), (0.05, 0.1), (0.9, 0.75), (2.8, 1.1)] + ([(1.5, 0.9), (0.3, 0.3)] if THOROUGH else [])
ROCKS = [(12.0, 10.0, 37.0, 2.65, 0.2), (3.0, 2.5, 37.0, 2.65, 0.35), (20.0, 18.0, 70.8, 2.87, 0.1), (6.0, 6.0, 21.0, 2.58, 0.28)]


@machine("C01", "fluid substitution chains", 4)
def m_gassmann(res, part, parts):
    """all chains of substitutions (both the modulus and the velocity form at every step) up to the depth bound"""
    depth = 4 if THOROUGH else 3
    rk = [np.array(x) for x in zip(*ROCKS)]
    rocks = [tuple(float(x) for x in r) for r in ROCKS] + [tuple(rk), tuple(x.reshape(2, 2) for x in rk)]
    starts = [(r, i) for r in range(len(rocks)) for i in range(len(FL))]
    for r, i0 in starts[part::parts]:
        kd, g, k0, d0, phi = rocks[r]
        want = [(*fluid.r_gassmann(kd, g, k0, kf, phi), (1 - phi) * d0 + phi * rf) for kf, rf in FL]

        def fail(word, what, got, exp):
            res.viol("machine", "chain %s on rock %d: %s is %r, expected %r" % (word, r, what, np.asarray(got).tolist(), np.asarray(exp).tolist()), chain=word, rock=r)

        k, gg = Fluid.Gassmann(kd, g, k0, FL[i0][0], phi)
        if not (close(k, want[i0][0]) and close(gg, g)):
            fail("dry->%d" % i0, "saturated moduli", k, want[i0][0])
            return

        def dfs(word, cur, k, rho):
            res.states += 1
            if len(res.viols) >= 3:
                return
            if len(word) > depth:
                res.traces += 1
                return
            for nx in range(len(FL)):
                for how in ("sub", "vels"):
                    res.transitions += 1
                    w = word + ["%s->%d" % (how, nx)]
                    if how == "sub":
                        k2 = Fluid.Gassmann_sub(phi, k0, k, FL[cur][0], FL[nx][0])
                        rho2 = rho + phi * (FL[nx][1] - FL[cur][1])
                    else:
                        vp, vs = np.sqrt((k + 4 * g / 3) / rho), np.sqrt(g / rho)
                        vp2, vs2 = Fluid.Gassmann_vels(vp, vs, rho, FL[cur][1], FL[cur][0], FL[nx][1], FL[nx][0], k0, phi)
                        rho2 = rho + phi * (FL[nx][1] - FL[cur][1])
                        k2 = rho2 * (vp2 ** 2 - 4 / 3 * vs2 ** 2)
                        if not close(rho2 * vs2 ** 2, g):
                            fail(w, "shear modulus", rho2 * vs2 ** 2, g)
                            return
                    if not close(k2, want[nx][0], 1e-6):
                        fail(w, "bulk modulus", k2, want[nx][0])
                        return
                    if how == "sub" or len(word) < 2 or THOROUGH:
                        dfs(w, nx, k2, rho2)
        dfs(["dry->%d" % i0], i0, k, want[i0][2])


# ------------------------------------------------------------------------------------------ C02
@machine("C02", "anisotropic substitution chains", 4)
def m_bk(res, part, parts):
    depth = 4 if THOROUGH else 3
    fl = [2.25, 0.02, 1.0, 2.8]
    cases = [(s, k0, phi) for s in range(len(fluid.SDRY)) for k0, phi in ((37.0, 0.2), (45.0, 0.3))]
    for si, k0, phi in cases[part::parts]:
        S = fluid.SDRY[si]
        want = [fluid.r_bk_d2s(S, k0, 44.0, kf, phi)[0] for kf in fl]
        first = [np.asarray(Fluid.Brown_Korringa_dry2sat(S.copy(), k0, 44.0, kf, phi)) for kf in fl]
        for i, s in enumerate(first):
            if not close(s, want[i], 1e-8, 1e-12):
                res.viol("machine", "dry->%d of matrix %d" % (i, si), chain=["dry", i], got=s.tolist())
                return
            back = np.asarray(Fluid.Brown_Korringa_sat2dry(s.copy(), k0, 44.0, fl[i], phi))
            if not close(back, S, 1e-7, 1e-11):
                res.viol("machine", "saturating with fluid %d and drying again does not return the dry matrix %d" % (i, si), chain=["dry", i, "dry"], got=back.tolist())
                return
        if si < 2:                       # isotropic: Gassmann
            C = np.linalg.inv(S)
            g = C[3, 3]
            k = C[0, 0] - 4 * g / 3
            for i, kf in enumerate(fl):
                if not close(np.linalg.inv(first[i]), iso(fluid.r_gassmann(k, g, k0, kf, phi)[0], g), 1e-7, 1e-9):
                    res.viol("machine", "isotropic case differs from Gassmann for fluid %d" % i, chain=["dry", i])
                    return

        def dfs(word, C):
            res.states += 1
            if len(res.viols) >= 3:
                return
            if len(word) > depth:
                res.traces += 1
                return
            for nx in range(len(fl)):
                res.transitions += 1
                C2, S2 = Fluid.Brown_Korringa_sub(C.copy(), k0, 44.0, fl[word[-1]], fl[nx], phi)
                C2, S2 = np.asarray(C2), np.asarray(S2)
                if not (close(S2, want[nx], 1e-6, 1e-10) and close(C2 @ S2, np.eye(6), 1e-7, 1e-7) and close(C2, C2.T, 1e-8, 1e-8)):
                    res.viol("machine", "substitution chain %s of matrix %d does not end in the state of its last fluid" % (word + [nx], si), chain=word + [nx], got=C2.tolist())
                    return
                dfs(word + [nx], C2)
        for i0 in range(len(fl)):
            dfs([i0], np.linalg.inv(first[i0]))


# ------------------------------------------------------------------------------------------ C04
@machine("C04", "phase permutations and bound ordering")
def m_bounds(res, part, parts):
    sets = [([0.2, 0.3, 0.5], [37.0, 21.0, 2.25]), ([0.1, 0.2, 0.3, 0.4], [37.0, 76.8, 2.25, 12.0]), ([0.05, 0.25, 0.1, 0.35, 0.25], [37.0, 21.0, 76.8, 2.25, 0.1])]
    if THOROUGH:
        sets.append(([0.05, 0.15, 0.1, 0.3, 0.25, 0.15], [37.0, 21.0, 76.8, 2.25, 0.1, 45.0]))
    for f, m in sets:
        want = em.r_vrh(f, m)
        for p in itertools.permutations(range(len(f))):
            res.states += 1
            res.transitions += 1
            res.traces += 1
            got = EM.VRH(np.array([f[i] for i in p]), np.array([m[i] for i in p]))
            if not close(got, want, 1e-10):
                res.viol("machine", "VRH depends on the order of the phases %s: %r" % (p, got), order=list(p))
                return
    fr = np.linspace(0, 1, 41 if THOROUGH else 21)
    mats = [(37.0, 44.0), (21.0, 7.0), (76.8, 32.0), (2.25, 0.0), (12.0, 9.0), (0.05, 0.0)]
    for (k1, g1), (k2, g2) in itertools.permutations(mats, 2):
        if not (k1 >= k2 and g1 >= g2) or g1 == 0:
            continue
        res.states += 1
        ku, gu = EM.HS(fr, k1, k2, g1, g2, "upper")
        kl, gl = (np.full_like(fr, np.nan),) * 2
        with np.errstate(all="ignore"):
            kl, gl = EM.HS(fr, k1, k2, g1, g2, "lower")
        v, r = fr * k1 + (1 - fr) * k2, 1 / (fr / k1 + (1 - fr) / k2)
        vg = fr * g1 + (1 - fr) * g2
        e = 1e-9 * max(k1, g1)
        res.transitions += len(fr)
        inner = slice(0, -1) if g2 == 0 else slice(None)
        bad = np.any(ku > v + e) or np.any((kl > ku + e)[inner]) or np.any((r > kl + e)[inner]) or np.any(gu > vg + e) or np.any((gl > gu + e)[inner])
        ends = close(ku[[0, -1]], [k2, k1], 1e-9) and close(gu[[0, -1]], [g2, g1], 1e-9, 1e-9) and (g2 == 0 or (close(kl[[0, -1]], [k2, k1], 1e-9) and close(gl[[0, -1]], [g2, g1], 1e-9)))
        if bad or not ends:
            res.viol("machine", "bounds of (%g,%g) and (%g,%g) are not ordered or miss an end member" % (k1, g1, k2, g2), phases=[k1, g1, k2, g2])
            return


# ------------------------------------------------------------------------------------------ C08
@machine("C08", "rotation words", 4)
def m_bond(res, part, parts):
    from .findings import LISTED
    depth = 3 if THOROUGH else 2
    gens = [(a, t) for a in (3, 1) for t in (30.0, 90.0, 180.0, 360.0, -45.0, 17.0)]
    mats = [fluid.DRY[k] for k in ("iso", "vti", "hti", "ortho", "tri", "mono")]
    ref = [aniso.r_bond] + ([aniso.d_bond] if "KF-bond" in LISTED else [])
    for mi, M in list(enumerate(mats))[part::parts]:
        for rf in ref:                     # a whole word must follow one and the same rotation law
            ok, bad = True, None
            n = 0

            def dfs(word, cur, exp):
                nonlocal ok, bad, n
                n += 1
                if len(word) == depth or not ok:
                    return
                for a, t in gens:
                    new = np.asarray(Anisotropy.Bond_trans(cur.copy(), t, a))
                    e2 = rf(exp, t, a)
                    if not close(new, e2, 1e-9, 1e-9):
                        ok, bad = False, (word + [(a, t)], new.tolist())
                        return
                    dfs(word + [(a, t)], new, e2)
            dfs([], M.copy(), M.copy())
            if ok:
                res.states += n
                res.transitions += n
                res.traces += n
                if rf is aniso.d_bond:
                    res.known["KF-bond"] = res.known.get("KF-bond", 0) + n
                break
        if not ok:
            res.viol("machine", "rotation word %s of matrix %d is not the composed rotation" % (bad[0], mi), word=bad[0], got=bad[1])
            return


# ------------------------------------------------------------------------------------------ C10
@machine("C10", "equivalent descriptions of a stack", 3)
def m_backus(res, part, parts):
    depth = 4 if THOROUGH else 3
    stacks = [((1.0, 12.0, 10.0), (2.0, 5.0, 3.0), (0.5, 25.0, 20.0)), ((1.0, 9.0, 6.0), (1.0, 9.0, 6.0)), ((3.0, 12.0, 10.0), (1.0, 5.0, 3.0), (2.0, 12.0, 10.0), (0.25, 18.0, 15.0))]
    for s0 in stacks[part::parts]:
        want = aniso.r_backus(*zip(*s0))
        seen = {s0}
        frontier = [s0]
        for d in range(depth + 1):
            nxt = []
            for s in frontier:
                res.states += 1
                res.traces += 1
                cols = [np.array(c) for c in zip(*s)]
                for form, a in (("array", cols), ("list", [c.tolist() for c in cols])):
                    res.transitions += 1
                    got = Anisotropy.Backus(*a)
                    if not close(got, want, 1e-9, 1e-10):
                        res.viol("machine", "stack %s (equivalent to %s) as %s averages to %r, expected %r" % (s, s0, form, [float(x) for x in got], want), stack=s)
                        return
                # the same stack as a log: depths, velocities, unit density varied with the layer modulus
                den = [2.0 + 0.01 * l for _, l, _ in s]
                vp = [np.sqrt((l + 2 * g) / r) for (_, l, g), r in zip(s, den)]
                vs = [np.sqrt(g / r) for (_, l, g), r in zip(s, den)]
                dep = np.concatenate([[1000.0], 1000.0 + np.cumsum([v for v, _, _ in s])])
                o = Anisotropy.Backus_log(np.array(vp), np.array(vs), np.array(den), dep)
                rho = sum(v * r for (v, _, _), r in zip(s, den)) / sum(v for v, _, _ in s)
                if not close(o, tuple(want) + (rho,), 1e-8, 1e-9):
                    res.viol("machine", "log of stack %s averages to %r, expected %r" % (s, [float(x) for x in o], want), stack=s)
                    return
                if d < depth:
                    succ = [s[::-1], s[1:] + s[:1], tuple((2 * v, l, g) for v, l, g in s)]
                    for i, (v, l, g) in enumerate(s):
                        if len(s) < 7:
                            succ.append(s[:i] + ((0.25 * v, l, g), (0.75 * v, l, g)) + s[i + 1:])
                        if i + 1 < len(s) and s[i][1:] == s[i + 1][1:]:
                            succ.append(s[:i] + ((v + s[i + 1][0], l, g),) + s[i + 2:])
                    for q in succ:
                        if q not in seen:
                            seen.add(q)
                            nxt.append(q)
            frontier = nxt


# ------------------------------------------------------------------------------------------ C16
def _warned(f, t, p, mode="always"):
    """-> number of warnings of the range check under a given user filter; an exception counts as one"""
    with warnings.catch_warnings(record=True) as rec, np.errstate(all="ignore"):
        warnings.simplefilter(mode)
        try:
            f(t, p)
        except UserWarning:
            return 1
    return sum(1 for r in rec if issubclass(r.category, UserWarning) and not issubclass(r.category, (RuntimeWarning, DeprecationWarning)))


@machine("C16", "warnings after other calls", 6)
def m_warn_hist(res, part, parts):
    """words of calls (function x pressure below/above 100 MPa x the user's warning filter, or a call aborted at its k-th line) followed by an observation of every function"""
    from .history import Abort, _tracer, line_events
    fns = {"v_water": lambda t, p: BW.v_water(t, p), "rho_K_water": lambda t, p: BW.rho_K_water(t, p), "v_brine": lambda t, p: BW.v_brine(t, p, 0.035), "rho_K_brine": lambda t, p: BW.rho_K_brine(t, p, 0.035),
           "co2_brine": lambda t, p: BW.co2_brine(t, p, 0.035, 0.3)}
    hi, lo, arr = 130.0, 40.0, np.array([40.0, 130.0])
    ops = {}
    for n, f in fns.items():
        for pn, p in (("above 100", hi), ("below 100", lo), ("mixed array", arr)):
            for mode in ("always", "error", "ignore", "default", "once"):
                ops["%s %s, filter %s" % (n, pn, mode)] = (lambda f=f, p=p, mode=mode: _warned(f, 60.0, p, mode))
        for pn, p in (("above 100", hi), ("mixed array", arr)):
            for k in range(1, min(line_events(f, (60.0, p)), 60) + 1):
                def ab(f=f, p=p, k=k):
                    with warnings.catch_warnings(), np.errstate(all="ignore"):
                        warnings.simplefilter("ignore")
                        sys.settrace(_tracer(k, [0]))
                        try:
                            f(60.0, p)
                        except Abort:
                            pass
                        finally:
                            sys.settrace(None)
                ops["%s %s aborted at line event %d" % (n, pn, k)] = ab
    names = list(ops)
    core = [n for n in names if "filter" in n and "once" not in n and "mixed" not in n]
    words = [(n,) for n in names] + list(itertools.product(core, repeat=2))
    if THOROUGH:
        words += list(itertools.product(names, repeat=2)) + list(itertools.product([c for c in core if "rho" not in c], repeat=3))
    for w in words[part::parts]:
        for n in w:
            ops[n]()
            res.transitions += 1
        res.states += 1
        for n, f in fns.items():
            for p, exp in ((hi, True), (lo, False), (arr, True)):
                res.transitions += 1
                got = _warned(f, 60.0, p)
                if bool(got) != exp:
                    res.viol("machine", "%s with pressure %s after [%s]: %s" % (n, p, "; ".join(w), "no warning" if exp else "a warning although no pressure exceeds 100"), history=list(w))
                    return
        res.traces += 1


@machine("C16", "pressure range warnings", 4)
def m_warn(res, part, parts):
    fns = {"v_water": lambda t, p: BW.v_water(t, p), "rho_K_water": lambda t, p: BW.rho_K_water(t, p), "v_brine": lambda t, p: BW.v_brine(t, p, 0.035), "rho_K_brine": lambda t, p: BW.rho_K_brine(t, p, 0.035),
           "co2_brine": lambda t, p: BW.co2_brine(t, p, 0.035, 0.3), "co2_brine(Brie)": lambda t, p: BW.co2_brine(t, p, 0.035, 0.3, 3)}
    vals = [30.0, 100.0, 100.0000001, 101.0, 150.0, float("nan")]
    words = [w for n in range(1, 5 if THOROUGH else 4) for w in itertools.product(vals, repeat=n)]
    extra = [tuple([30.0] * i + [120.0] + [30.0] * (n - i - 1)) for n in (20, 150, 2000) for i in sorted({0, 1, n // 2, n - 1})] + [tuple([90.0] * 500), tuple([100.0] * 50)]
    cases = []
    for w in words + extra:
        a = np.array(w)
        cases += [("array", a, w)]
        if len(w) == 1:
            cases += [("scalar", w[0], w), ("0-d", np.array(w[0]), w)] + ([("int", int(w[0]), (int(w[0]),))] if w[0] == w[0] else [])
        if len(w) in (2, 4, 20):
            cases += [("2d", a.reshape(2, -1), w), ("strided", np.repeat(a, 2)[::2], w)]
    for name, f in list(fns.items()):
        for form, p, w in cases[part::parts]:
            for rep in (1, 2):
                res.states += 1
                res.transitions += 1
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    with np.errstate(all="ignore"):
                        f(60.0, p)
                n = sum(1 for r in rec if issubclass(r.category, UserWarning) and not issubclass(r.category, (RuntimeWarning, DeprecationWarning)))
                exp = any(x > 100 for x in w)
                if bool(n) != exp:
                    res.viol("machine", "%s called with pressure %s (%s), call %d: %s" % (name, w if len(w) < 8 else "array of %d, max %g" % (len(w), max(w)), form, rep, "no warning" if exp else "a warning although no pressure exceeds 100"), pressure=list(w[:8]), form=form)
                    return
            res.traces += 1
        # temperature and pressure of different shapes: rows, columns and grids, temperature on either side of 100
        ps = [(30.0, 90.0), (30.0, 120.0), (120.0, 30.0, 50.0), (20.0, 100.0, 60.0), (100.0000001,), (55.0,), (10.0, 20.0, 30.0, 101.0), (10.0, 20.0, 30.0, 40.0)]
        ts = [(60.0,), (20.0, 150.0), (150.0, 101.0, 20.0), (101.0, 102.0, 103.0, 104.0)]
        shp = [("columns x row", lambda t, p: (t[:, None], p)), ("row x column", lambda t, p: (t, p[:, None])), ("column x row 2-D", lambda t, p: (t[:, None], p[None, :])), ("grids", lambda t, p: tuple(np.meshgrid(t, p))),
               ("transposed grids", lambda t, p: tuple(x.T for x in np.meshgrid(t, p, indexing="ij"))), ("3-D", lambda t, p: (t[:, None, None], p[None, :, None])), ("scalar temperature", lambda t, p: (float(t[0]), p[:, None])), ("scalar pressure", lambda t, p: (t, float(p[-1])))]
        for w in [x for x in ps][part::parts]:
            for t in ts:
                for tag, mk in shp:
                    T, P = mk(np.array(t), np.array(w))
                    res.states += 1
                    res.transitions += 1
                    with warnings.catch_warnings(record=True) as rec:
                        warnings.simplefilter("always")
                        with np.errstate(all="ignore"):
                            f(T, P)
                    n = sum(1 for r in rec if issubclass(r.category, UserWarning) and not issubclass(r.category, (RuntimeWarning, DeprecationWarning)))
                    if bool(n) != bool(np.any(np.asarray(P) > 100)):
                        res.viol("machine", "%s called with temperatures %s and pressures %s (%s): %s" % (name, t, w, tag, "a warning although no pressure exceeds 100" if n else "no warning"), pressure=list(w), form=tag)
                        return


# ------------------------------------------------------------------------------------------ C20
CFG = [dict(Dqz=2.65, Kqz=36.6, Gqz=45.0, Dsh=2.7, Ksh=21.0, Gsh=7.0, Dc=2.65, Kc=36.6, Gc=45.0, Db=1.0, Kb=2.2, phi_c=0.4, sigma=20.0, scheme=2, Cn=8.6, vsh=0, f=0.5, phib=0.3),
       dict(Dqz=2.65, Kqz=37.0, Gqz=44.0, Dsh=2.58, Ksh=21.0, Gsh=7.0, Dc=2.71, Kc=40.0, Gc=42.0, Db=1.05, Kb=2.5, phi_c=0.38, sigma=10.0, scheme=1, Cn=9.0, vsh=0.1, f=0.3, phib=0.28)]
SEEDS = [[0.01, 0.02, 0.04], [0.005, 0.03], [0.02], [0, 0.01, 0.03, 0.1], [0.01, 0.0142, 0.02]]


def cem_args(c, seeds):
    return (seeds, c["Kqz"], c["Gqz"], c["Ksh"], c["Gsh"], c["phi_c"], c["Cn"], c["Kc"], c["Gc"], c["Db"], c["Kb"], c["scheme"], c["vsh"], c["Dsh"], c["Dqz"], c["Dc"])


def lines_of(c, seeds, phi):
    return [np.asarray(QI.cal_v_const(c["Dqz"], c["Kqz"], c["Gqz"], c["Dsh"], c["Ksh"], c["Gsh"], c["Dc"], c["Kc"], c["Gc"], c["Db"], c["Kb"], c["phi_c"] - s, c["phi_c"], c["vsh"], phi, c["scheme"])[0]) for s in seeds]


def expect_cem(seeds, ln, j, v):
    """expected cement for sample j with velocity v; returns the list of acceptable values"""
    a = [x[j] for x in ln]
    if v <= a[0]:
        return 0.0
    if v >= a[-1]:
        return seeds[-1]
    for lo in range(len(a) - 1):
        if a[lo] <= v <= a[lo + 1]:
            return seeds[lo] + (seeds[lo + 1] - seeds[lo]) * (v - a[lo]) / (a[lo + 1] - a[lo])


@machine("C19", "end points of the cement curves", 4)
def m_ends(res, part, parts):
    """the high-porosity end member on every point of the porosity axis that the package itself returns: the increasing-cement
    curve still contains it, the contact-cement curve begins there; likewise for constant-cement lines"""
    def args(c, pb):
        return [c[k] for k in "Dqz Kqz Gqz Dsh Ksh Gsh Dc Kc Gc Db Kb".split()] + [pb, c["phi_c"], c["sigma"], c["vsh"], c["scheme"], c["f"], c["Cn"]]
    jobs = [(ci, k) for ci in range(len(CFG)) for k in range(3, 98)]
    for ci, k in jobs[part::parts]:
        c = CFG[ci]
        pb = float(np.asarray(QI.screening(*args(c, c["phib"]))[0])[k])
        o, up, dn = (QI.screening(*args(c, x)) for x in (pb, pb * (1 + 1e-9), pb * (1 - 1e-9)))
        res.states += 1
        res.transitions += 4
        if o[0][k] != pb:                      # the axis depends on the end member: nothing to hit
            res.skipped += 1
            continue
        for a, b, name in ((2, up, "increasing-cement Vp"), (5, up, "increasing-cement Vs"), (3, dn, "contact-cement Vp"), (6, dn, "contact-cement Vs")):
            if not close(o[a][k], b[a][k], 1e-6, 1e-6) or not np.isfinite(b[a][k]):
                return res.viol("machine", "screening, end member phib_p=%r on the porosity axis: %s there is %r, a billionth beside it %r" % (pb, name, float(o[a][k]), float(b[a][k])), phib=pb, cfg=ci)
        if np.isfinite(o[2][k + 1]) or np.isfinite(o[5][k + 1]) or np.isfinite(o[3][k - 1]) or np.isfinite(o[6][k - 1]):
            return res.viol("machine", "screening, end member phib_p=%r: a curve continues beyond it" % pb, phib=pb, cfg=ci)
        if pb > c["phi_c"] - 0.004:
            continue
        ph = np.array([pb, np.nextafter(pb, 1), np.nextafter(pb, 0), pb * (1 - 1e-9)])
        v = QI.cst_vels(pb, c["Kqz"], c["Dqz"], c["Gqz"], ph.copy(), c["phi_c"], c["Cn"], c["Kc"], c["Gc"], c["Db"], c["Kb"], c["scheme"], c["vsh"], c["Dsh"], c["Dqz"], c["Dc"])
        res.transitions += 1
        for x, name in zip(v, ("Vp", "Vs")):
            x = np.asarray(x, float)
            if not (np.isfinite(x[3]) and close(x[0], x[3], 1e-6) and close(x[2], x[3], 1e-6) and np.isnan(x[1])):
                return res.viol("machine", "cst_vels at, just above and just below phi_b=%r: %s %r" % (pb, name, x.tolist()), phib=pb, cfg=ci)
        res.traces += 1


@machine("C20", "cement estimation words", 8)
def m_cement(res, part, parts):
    """all words of sample kinds (below / on / between / above the constant-cement lines) up to the length bound"""
    import pandas as pd
    L = 3 if THOROUGH else 2
    PHI = np.array([0.15, 0.22, 0.08, 0.28, 0.3, 0.12, 0.25])
    jobs = []
    for ci, c in enumerate(CFG):
        for sc in (1, 2):
            for si, seeds in enumerate(SEEDS):
                for cont in ("array", "list", "series"):
                    jobs.append((ci, sc, si, cont))
    for ci, sc, si, cont in jobs[part::parts]:
        c = dict(CFG[ci], scheme=sc)
        seeds = SEEDS[si]
        kinds = ["below", "above"] + ["on%d" % k for k in range(len(seeds))] + ["mid%d" % k for k in range(len(seeds) - 1)] + ["nearlow%d" % k for k in range(len(seeds) - 1)] + ["prev"]
        words = [w for n in range(1, L + 1) for w in itertools.product(kinds, repeat=n)] + [tuple(kinds), tuple(kinds[::-1]), tuple(kinds[1:] + kinds[:1]), ("mid0",) * 5 + ("below",) if len(seeds) > 1 else ("below", "above")]
        for wi, w in enumerate(words):
            for rot in (0, 3):
                phi = np.array([PHI[(i + rot) % len(PHI)] for i in range(len(w))])
                ln = lines_of(c, seeds, phi)
                if not all(np.all(b > a + 1) for a, b in zip(ln[:-1], ln[1:])):
                    res.skipped += 1
                    continue
                vp = []
                tie = []
                for j, k in enumerate(w):
                    t = False
                    if k == "below":
                        v = ln[0][j] - 25.0
                    elif k == "above":
                        v = ln[-1][j] + 40.0
                    elif k.startswith("on"):
                        v = ln[int(k[2:])][j]
                        t = k == "on0" and not all(float(x) == v for x in (lines_of(c, seeds[:1], phi[j])[0], lines_of(c, seeds[:1], phi[j:j + 1])[0][0]))
                    elif k == "prev":
                        v = vp[-1] if vp else ln[0][j] + 1.0          # the velocity of the sample before it
                    elif k.startswith("mid"):
                        m = int(k[3:])
                        v = 0.3 * ln[m][j] + 0.7 * ln[m + 1][j]
                    else:
                        m = int(k[7:])
                        v = ln[m][j] + 1e-3 * (ln[m + 1][j] - ln[m][j])
                    vp.append(float(v))
                    tie.append(t)
                vp = np.array(vp)
                exp = np.array([expect_cem(seeds, ln, j, vp[j]) for j in range(len(w))], float)
                idx = np.arange(len(w))[::-1] * 2 + 7
                a = (vp.copy(), phi.copy()) if cont != "series" else (pd.Series(vp.copy(), index=idx), pd.Series(phi.copy(), index=idx))
                sd = np.array(seeds, float) if cont == "array" else list(seeds) if cont == "list" else np.array(seeds, float)
                q = QI(a[0], a[1])
                for rep in (1, 2):
                    res.states += 1
                    res.transitions += 1
                    tag = "estimate_cem cfg %d scheme %d seeds %s samples %s (%s, call %d)" % (ci, sc, seeds, "/".join(w), cont, rep)
                    try:
                        got = np.asarray(q.estimate_cem(*cem_args(c, sd)))
                    except Exception as e:
                        res.viol("machine", "%s raises %s: %s" % (tag, type(e).__name__, e), samples=list(w))
                        return
                    d = np.abs(got - exp) if got.shape == exp.shape else np.array([np.inf])
                    bad = ~(d <= 1e-7)
                    if bad.any() and got.shape == exp.shape:
                        bad &= ~(np.array(tie) & (np.abs(got - seeds[0]) < 1e-7))
                    if bad.any():
                        res.viol("machine", "%s: %r, expected %r" % (tag, got.tolist(), exp.tolist()), samples=list(w), phi=phi.tolist(), vp=vp.tolist())
                        return
                    if not (np.array_equal(np.asarray(q.Vp), vp) and np.array_equal(np.asarray(q.phi), phi) and list(sd) == [float(x) for x in seeds]):
                        res.viol("machine", "%s changes the object's data or the seeds" % tag, samples=list(w))
                        return
                res.traces += 1


def _curves(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def _match(curves, want, rtol=1e-6):
    """curves and want are the same multiset of curves"""
    if len(curves) != len(want):
        return "%d curves, expected %d" % (len(curves), len(want))
    left = list(range(len(curves)))
    for n, (x, y) in enumerate(want):
        for k in left:
            if close(curves[k][0], x, rtol, 1e-9) and close(curves[k][1], y, rtol, 1e-9):
                left.remove(k)
                break
        else:
            return "model curve %d is missing or altered" % n
    return None


def _scatter(ax, x, y, c):
    from matplotlib.collections import PathCollection
    cols = [k for k in ax.collections if isinstance(k, PathCollection)]
    if len(cols) != 1:
        return "%d point sets, expected 1" % len(cols)
    off = np.ma.filled(np.ma.asarray(cols[0].get_offsets(), float), np.nan)
    arr = np.ma.filled(np.ma.asarray(cols[0].get_array(), float), np.nan)
    x, y, c = (np.asarray(v, float) for v in (x, y, c))
    if off.shape != (len(x), 2) or arr.shape != c.shape:
        return "wrong number of data points"
    o1, o2 = np.lexsort((arr, off[:, 1], off[:, 0])), np.lexsort((c, y, x))
    if not (close(off[o1, 0], x[o2], 1e-9) and close(off[o1, 1], y[o2], 1e-9) and close(arr[o1], c[o2], 1e-9)):
        return "data points or their colour values are altered"
    return None


def _kde(ax, x, y, n):
    from kde_diffusion import kde2d
    from matplotlib.collections import QuadMesh
    m = [k for k in ax.collections if isinstance(k, QuadMesh)]
    if len(m) != 1:
        return "%d density maps, expected 1" % len(m)
    d, grid, _ = kde2d(np.asarray(x, float), np.asarray(y, float), n=n, limits=None)
    d = d / d.max()
    d = np.where(d < 1e-4, 0, d)
    a = np.ma.filled(np.ma.asarray(m[0].get_array(), float), np.nan).reshape(-1)
    if a.size != d.size or not close(a, d.T.reshape(-1), 1e-6, 1e-7):
        return "density map altered"
    co = m[0].get_coordinates()
    cx, cy = (co[:-1, :-1, 0] + co[1:, 1:, 0]) / 2, (co[:-1, :-1, 1] + co[1:, 1:, 1]) / 2
    if cx.shape != (len(grid[1]), len(grid[0])) or not (close(cx[0], grid[0], 1e-6, 1e-9) and close(cy[:, 0], grid[1], 1e-6, 1e-6)):
        return "density map misplaced"
    return None


class Session:
    """one QI object plus the operations a user performs on it"""

    def __init__(self, ci, cont):
        import pandas as pd
        c = self.c = CFG[ci]
        n = 14
        i = np.arange(n)
        self.phi = 0.08 + 0.2 * ((i * 5) % n) / n
        self.Vp = 4800 - 6000 * self.phi + 150 * np.cos(i)
        self.Vs = 2900 - 4200 * self.phi + 90 * np.sin(i)
        self.Vsh = 0.05 + 0.5 * ((i * 3) % n) / n
        mk = (lambda v: v.copy()) if cont == "array" else (lambda v: pd.Series(v.copy(), index=i[::-1] + 3))
        self.mk, self.gen = mk, 0
        self.q = QI(mk(self.Vp), mk(self.phi), Vs=mk(self.Vs), Vsh=mk(self.Vsh))
        m = [c[k] for k in "Dqz Kqz Gqz Dsh Ksh Gsh Dc Kc Gc Db Kb".split()]
        self.m = m
        self.scr = qi.r_scr(*m, c["phib"], c["phi_c"], c["sigma"], c["vsh"], c["scheme"], c["f"], c["Cn"])
        self.k0, self.g0 = qi.hill((c["vsh"], 1 - c["vsh"]), (c["Ksh"], c["Kqz"])), qi.hill((c["vsh"], 1 - c["vsh"]), (c["Gsh"], c["Gqz"]))
        self.figs, self.shown = [], []
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("do_")}

    def data_ok(self):
        q = self.q
        for n in ("Vp", "phi", "Vs", "Vsh"):
            if not np.array_equal(np.asarray(getattr(q, n)), getattr(self, n)):
                return "the object's %s has changed" % n
        return None

    def new(self, fig, check):
        if any(f is fig for f, _ in self.figs):
            return "an earlier figure is returned again"
        self.figs.append((fig, check))
        if self.lost():
            return self.lost()
        if self._registered(fig):
            self.shown.append(fig)
        return check(fig)

    def _registered(self, fig):
        from matplotlib._pylab_helpers import Gcf
        return any(m.canvas.figure is fig for m in Gcf.get_all_fig_managers())

    def lost(self):
        """a figure that was open in pyplot and that nobody closed is not open any more"""
        return None if all(self._registered(g) for g in self.shown) else "an earlier figure has been closed"

    # the user's own figures, opened before or between the package's plots
    def do_open_empty(self):
        import matplotlib.pyplot as plt
        return self.new(plt.figure(), lambda g: "axes were added to the user's own figure" if g.axes else None)

    def do_open_own(self):
        import matplotlib.pyplot as plt
        x = np.array([0.0, 1.0, 2.0])
        f, ax = plt.subplots()
        ax.plot(x, x ** 2)
        ax.scatter(x, x, c=x)
        return self.new(f, lambda g: "axes were added to the user's own figure" if len(g.axes) != 1 else _match(_curves(g.axes[0]), [(x, x ** 2)]) or _scatter(g.axes[0], x, x, x))

    # the user loads other samples into the object, or corrects the ones it has
    def do_reload(self):
        self.gen += 1
        self.phi, self.Vp, self.Vs, self.Vsh = (np.roll(v, 3) * f for v, f in ((self.phi, 0.97), (self.Vp, 1.01), (self.Vs, 0.99), (self.Vsh, 0.9)))
        for n in ("phi", "Vp", "Vs", "Vsh"):
            setattr(self.q, n, self.mk(getattr(self, n)))

    def do_correct(self):
        self.gen += 1
        for n, k, d in (("phi", 4, 0.013), ("Vp", 4, -120.0), ("Vs", 9, 75.0), ("Vsh", 2, 0.04)):
            v = getattr(self, n).copy()
            v[k] += d
            setattr(self, n, v)
            held = getattr(self.q, n)
            if hasattr(held, "iloc"):
                held.iloc[k] += d
            else:
                held[k] += d

    # samples far from every curve of the figures
    def do_outliers(self):
        self.gen += 1
        for n, k, v in (("Vp", 1, 600.0), ("Vp", 6, 8800.0), ("Vp", 11, 1480.0), ("phi", 3, 0.012), ("phi", 8, 0.338), ("Vs", 2, 250.0), ("Vs", 5, 5200.0), ("Vsh", 0, 0.0), ("Vsh", 7, 1.0)):
            a = getattr(self, n).copy()
            a[k] = v
            setattr(self, n, a)
        for n in ("phi", "Vp", "Vs", "Vsh"):
            setattr(self.q, n, self.mk(getattr(self, n)))

    def do_screening(self):
        c = self.c
        o = QI.screening(*self.m, c["phib"], c["phi_c"], c["sigma"], c["vsh"], c["scheme"], c["f"], c["Cn"])
        return None if all(close(a, b, 1e-7, 1e-6) for a, b in zip(o, self.scr)) else "screening curves altered"

    def _args(self, k):
        return [self.scr[i].copy() for i in k]

    def do_screening_plot(self):
        a = self._args((0, 1, 2, 3))
        f = self.q.screening_plot(*a)
        if not all(close(x, self.scr[i], 0, 0) for i, x in enumerate(a)):
            return "arguments modified"
        return self.new(f, lambda g, p=self.phi, v=self.Vp, s=self.Vsh: _match(_curves(g.axes[0]), [(self.scr[0], self.scr[i]) for i in (1, 2, 3)]) or _scatter(g.axes[0], p, v, 1 - s))

    def do_kde_vp(self):
        f = self.q.kde_plot(*self._args((0, 1, 2, 3)))
        return self.new(f, lambda g, p=self.phi, v=self.Vp: _match(_curves(g.axes[0]), [(self.scr[0], self.scr[i]) for i in (1, 2, 3)]) or _kde(g.axes[0], p, v, 64))

    def do_kde_vs(self):
        f = self.q.kde_plot(*self._args((0, 4, 5, 6)), vels="Vs", n=32)
        return self.new(f, lambda g, p=self.phi, v=self.Vs: _match(_curves(g.axes[0]), [(self.scr[0], self.scr[i]) for i in (4, 5, 6)]) or _kde(g.axes[0], p, v, 32))

    def _cst(self, pb):
        c = self.c
        return [(self.scr[0], self.scr[3]), (self.scr[0], self.scr[1])] + \
               [(self.scr[0], qi.r_cst(b, self.k0, None, self.g0, self.scr[0], c["phi_c"], c["Cn"], c["Kc"], c["Gc"], c["Db"], c["Kb"], c["scheme"], c["vsh"], c["Dsh"], c["Dqz"], c["Dc"])[0]) for b in pb]

    PB = [0.3, 0.36, 0.37]

    def do_cst_plot(self):
        c = self.c
        pb = list(self.PB[:2])
        f, ax = QI.cst_plot(*self.m, c["phib"], pb, c["phi_c"], c["sigma"], c["vsh"], c["Cn"], c["scheme"], c["f"])
        if pb != self.PB[:2]:
            return "arguments modified"
        if ax not in f.axes:
            return "axes not in figure"
        return self.new(f, lambda g: _match(_curves(g.axes[0]), self._cst(self.PB[:2])))

    def do_cement_diag(self):
        return self._diag(np.linspace(0, 0.09, len(self.phi)))

    def do_cement_diag_wide(self):
        return self._diag(np.linspace(0, 0.4, len(self.phi))[::-1] ** 2)

    def _diag(self, vc):
        c = self.c
        v0 = vc.copy()
        f = self.q.cement_diag_plot(vc, *self.m, c["phib"], np.array(self.PB), c["phi_c"], c["sigma"], c["vsh"], c["Cn"], c["scheme"], c["f"])
        if not np.array_equal(vc, v0):
            return "arguments modified"
        return self.new(f, lambda g, p=self.phi, v=self.Vp: _match(_curves(g.axes[0]), self._cst(self.PB)) or _scatter(g.axes[0], p, v, v0))

    def do_estimate(self):
        seeds = [0.005, 0.01, 0.03, 0.1]
        ln = lines_of(self.c, seeds, self.phi)
        got = np.asarray(self.q.estimate_cem(*cem_args(self.c, list(seeds))))
        exp = np.array([expect_cem(seeds, ln, j, v) for j, v in enumerate(self.Vp)])
        return None if close(got, exp, 1e-7, 1e-7) else "estimated cement is %r, expected %r" % (got.tolist(), exp.tolist())

    def do_rpt(self):
        return self._rpt(np.array([0.1, 0.2, 0.3]), np.array([0.0, 0.4, 1.0, 0.7]))

    def _rpt(self, phi, sw):
        kd, gd = 20 - 40 * phi, 18 - 35 * phi
        a = [kd.copy(), gd.copy(), 37.0, 2.65, 2.5, 1.05, 0.1, 0.2, phi.copy(), sw.copy()]
        f = QI.plot_rpt(*a)
        if not all(np.array_equal(x, y) for x, y in zip((a[0], a[1], a[8], a[9]), (kd, gd, phi, sw))):
            return "arguments modified"
        ip, ps = np.empty((len(phi), len(sw))), np.empty((len(phi), len(sw)))
        for j, s in enumerate(sw):
            vp, vs, rho = fluid.r_vels(kd, gd, 37.0, 2.65, 1 / (s / 2.5 + (1 - s) / 0.1), s * 1.05 + (1 - s) * 0.2, phi)
            ip[:, j], ps[:, j] = vp * rho, vp / vs
        want = [(ip[i], ps[i]) for i in range(len(phi))] + [(ip[:, -1], ps[:, -1])]
        return self.new(f, lambda g: _match(_curves(g.axes[0]), want))


@machine("C23", "QI objects shared by threads", 8)
def m_threads(res, part, parts):
    """two estimations (two objects, one object, other seeds) under every schedule with one preemption, and with two"""
    from .history import line_events
    from .threads import points, run_two
    seeds = [[0.005, 0.01, 0.03, 0.1], [0.02, 0.05]]
    todo = []
    for cx, cy in [(0, 1), (0, 0), (1, 0), (1, 1)]:
        todo += [(cx, cy, False)] + ([(cx, cy, True)] if cx == cy else [])

    cap, cap2 = (4000, 40) if THOROUGH else (500, 8)
    k = 0
    for cx, cy, same in todo:
        for sy in (0, 1):
            sx_ = Session(cx, "array")
            sy_ = sx_ if same else Session(cy, "array")
            if not same:
                sy_.do_reload()
            calls, want = [], []
            for s, sd in ((sx_, seeds[0]), (sy_, seeds[sy])):
                ln = lines_of(s.c, sd, s.phi)
                want.append(np.array([expect_cem(sd, ln, j, v) for j, v in enumerate(s.Vp)]))
                calls.append((s.q.estimate_cem, cem_args(s.c, list(sd))))
            n = [line_events(f, a) for f, a in calls]
            sched = [[(x, p), (y, None), (x, None)] for x, y in ((0, 1), (1, 0)) for p in points(n[x], cap)]
            sched += [[(0, p), (1, q), (0, None), (1, None)] for p in points(n[0], cap2) for q in points(n[1], cap2)[1:-1]]
            for seg in sched:
                k += 1
                if k % parts != part:
                    continue
                res.states += 1
                out = run_two(calls, seg)
                name = "X=cfg %d, Y=%s seeds %s, schedule %s" % (cx, "the same object" if same else "cfg %d" % cy, seeds[sy], seg)
                if out is None:
                    res.viol("schedule", "%s does not terminate" % name, schedule=seg)
                    return
                for t in (0, 1):
                    res.transitions += 1
                    m = "raises %s: %s" % (type(out[t][1]).__name__, out[t][1]) if out[t][0] == "exc" else None if close(out[t][1], want[t], 1e-7, 1e-7) else "estimates %r, expected %r" % (np.asarray(out[t][1]).tolist(), want[t].tolist())
                    if m and relative_same(calls[t], out[t]):
                        m = None
                    if m:
                        res.viol("schedule", "estimate_cem, %s: %s %s" % (name, "XY"[t], m), schedule=seg)
                        return
                m = sx_.data_ok() or sy_.data_ok()
                if m:
                    res.viol("schedule", "estimate_cem, %s: %s" % (name, m), schedule=seg)
                    return
                res.traces += 1


def relative_same(call, out):
    """the same call, run by itself in a fresh process, gives the same outcome (then the schedule is not what matters)"""
    from .history import in_fork
    st, o = in_fork(lambda: np.asarray(call[0](*call[1])))
    if st == "exc":
        return out[0] == "exc" and o.startswith(type(out[1]).__name__ + ":")
    return out[0] == "ok" and close(out[1], o, 1e-9, 1e-9)


@machine("C20", "QI session words", 16)
def m_session(res, part, parts):
    """all words of operations on one QI object up to the depth bound, figures kept open"""
    import matplotlib.pyplot as plt
    depth = 3 if THOROUGH else 2
    names = list(Session(0, "array").ops)
    words = [w for n in range(1, depth + 1) for w in itertools.product(names, repeat=n)]
    if not THOROUGH:                   # all words x, y, x as well
        words += [(x, y, x) for x in names for y in names if x != y]
    jobs = [(ci, cont, w) for ci in range(len(CFG)) for cont in ("array", "series") for w in words]
    if not THOROUGH:
        jobs = [j for j in jobs if len(j[2]) < 3 or (j[0], j[1]) == (0, "array")]
    from .history import settings, settings_diff
    s0 = settings(rc=True)
    for ci, cont, w in jobs[part::parts]:
        s = Session(ci, cont)
        res.states += 1
        for j, op in enumerate(w):
            res.transitions += 1
            try:
                m = s.ops[op]() or s.data_ok() or s.lost()
            except Exception as e:
                m = "raises %s: %s" % (type(e).__name__, e)
            if m:
                res.viol("machine", "QI session %s (cfg %d, %s): %s" % (" -> ".join(w[:j + 1]), ci, cont, m), session=list(w[:j + 1]))
                plt.close("all")
                return
        for fig, check in s.figs:
            m = check(fig)
            if m:
                res.viol("machine", "QI session %s (cfg %d, %s): an earlier figure changed: %s" % (" -> ".join(w), ci, cont, m), session=list(w))
                plt.close("all")
                return
        plt.close("all")
        res.traces += 1
    d = settings_diff(s0, settings(rc=True))
    if d:
        res.viol("machine", "QI calls changed the process-wide %s" % d, session="all")


@machine("C20", "rock physics templates", 4)
def m_rpt(res, part, parts):
    import matplotlib.pyplot as plt
    ph = [0.1, 0.25, 0.05, 0.3]
    sws = [0.0, 1.0, 0.5, 0.25]
    n = 4 if THOROUGH else 3
    jobs = [(p, s) for a in range(1, n + 1) for p in itertools.permutations(ph, a) for b in range(1, n + 1) for s in itertools.permutations(sws, b)]
    if not THOROUGH:
        jobs = [j for k, j in enumerate(jobs) if len(j[0]) < 3 or len(j[1]) < 3]
    # every saturation of a dense grid and of the literals of the current source, in the first, an inner and the last place
    from .core import source_literals
    dense = sorted(set(np.linspace(0, 1, 101 if THOROUGH else 41).tolist()) | {1e-9, 1e-6, 1e-4, 1e-3, 5e-3, 0.01, 0.03, 0.05, 0.99, 0.995, 0.999, 0.9999, 1 - 1e-9} | {c for c in source_literals(QI.plot_rpt) if 0 <= c <= 1})
    for d in dense:
        jobs += [((0.1, 0.25), (d, 0.5)), ((0.1, 0.25), (0.5, d)), ((0.3,), (0.2, d, 0.9)), ((0.1,), (d,))]
    jobs += [(tuple(np.linspace(0.02, 0.4, n).tolist()), tuple(np.linspace(0, 1, m).tolist()[::o])) for n in (1, 2, 5, 9, 13) for m in (1, 2, 5, 11, 21) for o in (1, -1)]
    for p, w in jobs[part::parts]:
        s = Session(0, "array")
        res.states += 1
        res.transitions += 1
        m = s._rpt(np.array(p), np.array(w))
        plt.close("all")
        if m:
            res.viol("machine", "plot_rpt with porosities %s and saturations %s: %s" % (p, w, m), phi=list(p), sw=list(w))
            return
        res.traces += 1
