"""Explorer K: every way of writing the same call -- positional prefix + keywords, omitted defaults, shared argument objects."""
import itertools

import numpy as np

from .core import describe
from .explore import Res, Timeout, outs
from .forms import banned, value_pool

# the documented default values
DEFAULTS = {
    "Anisotropy.Bond_trans": dict(axis=3), "AVO.EI_ref": dict(norm=True), "AVO.EI_ref#layers": dict(norm=True),
    "BW.co2_brine": dict(brie_component=None, bw=False), "Empirical.ramm_porosity": dict(HB=True),
    "Empirical.empirical_StPeter": dict(sample=1), "EM.cripor_reuss": dict(den=False), "EM.HS": dict(bound="upper"),
    "EM.hudson": dict(order=1, axis=3), "EM.Eshelby_Cheng": dict(mat=False), "GM.johnson": dict(path="together"),
}


def fresh(args):
    return [a.copy() if isinstance(a, np.ndarray) else list(a) if isinstance(a, list) else a for a in args]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype == object or y.dtype == object:
            x, y = x.astype(float), y.astype(float)
        if not np.allclose(x, y, rtol=1e-10, atol=1e-13 * float(np.nanmax(np.abs(np.where(np.isfinite(y), y, 0.0)), initial=0.0)), equal_nan=True):
            return False
    return True


def attempt(f, a, k=None):
    try:
        return "ok", outs(f(*a, **(k or {})))
    except Timeout:
        raise
    except Exception as e:
        return "exc", "%s: %s" % (type(e).__name__, e)


def call_points(spec):
    """base points with scalars, and with short arrays for every array argument"""
    A = tuple(i for i, p in enumerate(spec.params) if p.arr and p.kind == "num")
    pts = [list(b) for b in spec.base_points()]
    cats = [i for i, p in enumerate(spec.params) if p.kind == "cat"]
    for cv in itertools.product(*[spec.params[i].vals for i in cats]) if cats else ():
        q = list(spec.base_points()[0])
        for i, v in zip(cats, cv):
            q[i] = v
        pts.append(q)
    if A and spec.elementwise and not banned(spec, A, "len3"):
        pool, _ = value_pool(spec, A, 3, "f")
        for b, cols in (pool or [])[:2]:
            q = list(b)
            for k, i in enumerate(A):
                q[i] = np.resize(cols[:, k], 3).copy()
            pts.append(q)
    return [q for q in pts if all(spec.ok([tuple(x if not (isinstance(x, np.ndarray) and i in A) else float(x[k]) for i, x in enumerate(q))])[0] for k in range(1))]


def spellings(v):
    """other objects that mean the same option"""
    if isinstance(v, bool):
        return [("numpy bool", np.bool_(v))]
    if isinstance(v, int):
        return [("numpy integer", np.int64(v)), ("float", float(v)), ("int32", np.int32(v)), ("0-d array", np.array(v))]
    if isinstance(v, str):
        return [("numpy string", np.str_(v)), ("a string built at run time", "".join(list(v)))]
    return []


# options the package compares by identity ("is True"): only the documented bool objects are supported
# loop counts go to range(), which takes integers only
COUNTS = {("EM.SC", "iter_n"): ("float",), ("EM.SC_flex", "iter_n"): ("float",)}
BY_IDENTITY = {("BW.co2_brine", "bw"), ("EM.cripor_reuss", "den")}


def explore_K(spec):
    res = Res(spec.fn)
    if spec.fn.split("#")[-1] in ("SI", "default", "components") or spec.fn.count("#SI"):
        return res
    f = spec.raw()
    n = len(spec.params)
    names = spec.names
    dflt = DEFAULTS.get(spec.fn, {})

    def check(tag, a, k, want, q):
        res.states += 1
        res.transitions += 1
        snap = fresh(a)
        st, o = attempt(f, a, k)
        if st != "ok":
            res.viol("call", "%s: raises %s, the positional call does not" % (tag, o), point=describe(spec, q))
        elif not same(o, want):
            res.viol("call", "%s: %r, the positional call gives %r" % (tag, [np.asarray(x).tolist() for x in o][:3], [np.asarray(x).tolist() for x in want][:3]), point=describe(spec, q))
        elif not all(np.array_equal(x, y) for x, y in zip(a, snap) if isinstance(y, np.ndarray)):
            res.viol("call", "%s: an argument was modified" % tag, point=describe(spec, q))

    for q in call_points(spec):
        st, want = attempt(f, fresh(q))
        if st != "ok":
            res.skipped += 1                      # judged by the other explorers
            continue
        for k in range(n + 1):
            rest = names[k:]
            orders = {tuple(range(k, n)), tuple(range(n - 1, k - 1, -1))}
            for o in sorted(orders):
                a = fresh(q)
                check("%s given by keyword%s" % (",".join(rest), "" if o == tuple(range(k, n)) else " in reverse order"), a[:k], {names[i]: a[i] for i in o}, want, q)
            opt = [i for i in range(k, n) if names[i] in dflt and type(q[i]) is type(dflt[names[i]]) and q[i] == dflt[names[i]]]
            for r in range(1, len(opt) + 1):
                for om in itertools.combinations(opt, r):
                    a = fresh(q)
                    check("%s omitted" % ",".join(names[i] for i in om), a[:k], {names[i]: a[i] for i in range(k, n) if i not in om}, want, q)
            if len(res.viols) >= 5:
                return res
        for i, p in enumerate(spec.params):
            if p.kind == "cat" and (spec.fn, p.name) not in BY_IDENTITY:
                for tag, v in spellings(q[i]):
                    if (spec.fn, p.name) in COUNTS and tag in COUNTS[spec.fn, p.name]:
                        continue
                    a = fresh(q)
                    a[i] = v
                    check("%s=%r given as %s" % (p.name, q[i], tag), a, {}, want, q)
    # one object passed for two arguments; overlapping views
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    O = [i for i, p in enumerate(spec.params) if p.kind == "obj"]
    b = spec.base_points()[0]
    for i, j in itertools.combinations(A, 2) if spec.elementwise else ():
        if banned(spec, (i, j), "len3"):
            continue
        p, r = spec.params[i], spec.params[j]
        lo, hi = max(p.lo, r.lo), min(p.hi, r.hi)
        if not lo < hi:
            continue
        for b in spec.base_points()[:2]:
            x = lo + (hi - lo) * np.array([0.31, 0.77, 0.5, 0.12, 0.93, 0.64])
            for tag, build in (("the same array for %s and %s", lambda: (lambda y: (y, y))(x.copy())), ("overlapping views for %s and %s", lambda: (lambda y: (y[:-1], y[1:]))(x.copy()))):
                u, v = build()
                ok = spec.ok([tuple(float(u[m]) if k == i else float(v[m]) if k == j else c for k, c in enumerate(b)) for m in range(len(u))])
                a1, a2 = fresh(b), fresh(b)
                a1[i], a1[j] = u, v
                a2[i], a2[j] = u.copy(), v.copy()
                if not ok.all():
                    w = np.nonzero(ok)[0]
                    if tag.startswith("over") or len(w) < 2:
                        res.skipped += 1
                        continue
                    a1[i] = a1[j] = u[w]
                    a2[i], a2[j] = u[w].copy(), u[w].copy()
                st, want = attempt(f, fresh(a2)) if spec.call_ is None else ("skip", None)
                if st != "ok":
                    res.skipped += 1
                    continue
                check(tag % (p.name, r.name), a1, {}, want, a2)
    for i, j in itertools.combinations(O, 2):
        for b in spec.base_points():
            for v in [b[i], b[j]]:
                if not isinstance(v, (np.ndarray, list)):
                    continue
                a1, a2 = fresh(b), fresh(b)
                y = fresh([v])[0]
                a1[i] = a1[j] = y
                a2[i], a2[j] = fresh([v])[0], fresh([v])[0]
                try:
                    if not spec.ok([tuple(a2)])[0]:
                        continue
                except Exception:
                    continue
                st, want = attempt(f, fresh(a2))
                if st != "ok":
                    res.skipped += 1
                    continue
                check("the same object for %s and %s" % (names[i], names[j]), a1, {}, want, a2)
    res.info["call_forms:" + spec.fn] = res.states
    return res
