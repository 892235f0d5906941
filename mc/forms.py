"""Explorer S: every (function, parameter subset, argument form) of a finite form alphabet."""
import itertools

import numpy as np
import pandas as pd

from .core import THOROUGH, describe, literal_sizes, sweep_values
from . import pristine
from .explore import Res, Timeout, alternatives, call, compare, outs, safe_ref, slack


def _strided(x):
    b = np.full(2 * x.size + 1, -987.654)
    b[1::2] = x
    return b[1::2]


def _col(x):
    b = np.full((x.size, 3), -987.654)
    b[:, 1] = x
    return b[:, 1]


def _rev(x):
    return x[::-1].copy()[::-1]


def _ro(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def _series(x):
    return pd.Series(x.copy(), index=np.arange(x.size)[::-1] * 3 + 1)


def _shape(*s):
    def f(x):
        return x.copy().reshape(s)
    return f


def _fortran(x):
    return np.asfortranarray(x.reshape(2, 3))


def _transposed(x):
    return x.reshape(2, 3).T


def _field(x):
    r = np.zeros(x.size, dtype=[("pad", "i1"), ("v", "f8")])       # a packed record: neither contiguous nor aligned
    r["v"] = x
    return r["v"]


# name -> (number of elements, builder, value kind)
FORMS = {
    "pyfloat": (1, lambda x: float(x[0]), "f"),
    "npf64": (1, lambda x: np.float64(x[0]), "f"),
    "npf32": (1, lambda x: np.float32(x[0]), "f32"),
    "pyint": (1, lambda x: int(x[0]), "i"),
    "npi64": (1, lambda x: np.int64(x[0]), "i"),
    "0d": (1, lambda x: np.array(x[0]), "f"),
    "len1": (1, lambda x: x.copy(), "f"),
    "len2": (2, lambda x: x.copy(), "f"),
    "len3": (3, lambda x: x.copy(), "f"),
    "len7": (7, lambda x: x.copy(), "f"),
    "len64": (64, lambda x: x.copy(), "f"),
    "len500": (500, lambda x: x.copy(), "f"),
    "len5000": (5000, lambda x: x.copy(), "f"),
    "asc": (9, np.sort, "f"),
    "desc": (9, lambda x: np.sort(x)[::-1].copy(), "f"),
    "const": (5, lambda x: np.full(5, x[0]), "f"),
    "dup": (6, lambda x: np.concatenate([x[:3], x[:3]]), "f"),
    "pal": (6, lambda x: np.concatenate([x[:3], x[2::-1]]), "f"),
    "rev": (7, _rev, "f"),
    "strided": (7, _strided, "f"),
    "col": (7, _col, "f"),
    "ro": (5, _ro, "f"),
    "bigendian": (5, lambda x: x.astype(">f8"), "f"),
    "f32": (5, lambda x: x.astype(np.float32), "f32"),
    "int64": (5, lambda x: x.astype(np.int64), "i"),
    "list": (4, lambda x: x.tolist(), "f"),
    "tuple": (4, lambda x: tuple(x.tolist()), "f"),
    "series": (5, _series, "f"),
    "2d": (6, _shape(2, 3), "f"),
    "2dF": (6, _fortran, "f"),
    "2dT": (6, _transposed, "f"),
    "row": (4, _shape(1, 4), "f"),
    "column": (4, _shape(4, 1), "f"),
    "3d": (8, _shape(2, 2, 2), "f"),
    "4d": (8, _shape(2, 2, 1, 2), "f"),
    "1x1": (1, _shape(1, 1), "f"),
    "field": (5, _field, "f"),
    "nan0": (5, None, "nan"),
    "nanmid": (5, None, "nan"),
    "nanlast": (5, None, "nan"),
    "infmid": (5, None, "nan"),
    "above": (5, None, "nan"),
    "below": (5, None, "nan"),
    "zeromid": (5, None, "nan"),
    "empty": (0, lambda x: x[:0].copy(), "f"),
    "empty2d": (0, lambda x: x[:0].copy().reshape(0, 3), "f"),
}
ODD_FORMS = ("infmid", "above", "below", "zeromid")      # one element is far outside the domain: the others must not notice
STATIC_FORMS = list(FORMS)
PAIR_FORMS = ["len3", "rev", "2d"]


def value_pool(spec, subset, n, kind):
    """n distinct in-domain rows for the parameters in `subset` (other arguments at a base point)"""
    out = []
    for b in spec.base_points():
        vals = []
        for i in subset:
            p = spec.params[i]
            if kind == "i":
                v = [float(x) for x in p.int_values()]
            else:
                v = [float(x) for x in p.vals if isinstance(x, (int, float))] + [float(x) for x in sweep_values(p, 23)]
                if n > 500:
                    v += [float(x) for x in sweep_values(p, 997)]
            vals.append(v)
        if any(not v for v in vals):
            return None, None
        m = max(n, 8) * 3
        rows = []
        for k in range(m):
            # deterministic walk through the value lists with co-prime strides: neighbours differ, order unsorted
            rows.append([v[(k * (2 * j + 1) + (k // len(v)) * j + 3 * k * (len(v) > 7)) % len(v)] for j, v in enumerate(vals)])
        pts = []
        for r in rows:
            q = list(b)
            for i, x in zip(subset, r):
                q[i] = x
            pts.append(tuple(q))
        ok = spec.ok(pts)
        pts = [q for q, o in zip(pts, ok) if o]
        if not pts:
            continue
        # finite reference values only
        cols = [np.array([q[i] for q in pts], float) if (p.kind == "num" and i in subset) else pts[0][i] for i, p in enumerate(spec.params)]
        w = safe_ref(spec.ref, cols)
        fin = np.ones(len(pts), bool)
        for x in w:
            if x.ndim and x.shape[0] == len(pts) and x.size == len(pts):
                fin &= np.isfinite(x.reshape(len(pts)))
        pts = [q for q, o in zip(pts, fin) if o]
        if len(pts) >= 1:
            rows = [[q[i] for i in subset] for q in pts]
            while len(rows) < n:
                rows = rows + rows
            out.append((b, np.array(rows[:max(n, 1)], float)))
    return out, None


def subsets(spec):
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    subs = [(i,) for i in A]
    if len(A) > 1:
        subs.append(tuple(A))
    pairs = [s for s in itertools.combinations(A, 2) if len(A) > 2]
    allbut = [tuple(x for x in A if x != i) for i in A] if len(A) > 3 else []
    return subs, pairs, allbut


SHAPES_ND = ["2d", "2dF", "2dT", "row", "column", "3d"]


def banned(spec, subset, form):
    """forms outside the supported argument forms of a function (lists only where the documentation uses them)"""
    if form in ("list", "tuple") and not all(spec.params[i].name in spec.lists for i in subset):
        return True
    like = {"empty2d": "2d", "4d": "3d", "1x1": "2d", "field": "strided"}.get(form)
    if like and banned(spec, subset, like):
        return True
    for s in spec.noforms:
        if ":" in s:
            p, f = s.split(":")
        else:
            p, f = "*", s
        if f == form and (p == "*" or any(spec.params[i].name == p for i in subset)):
            return True
    return False


def form_sizes(spec):
    top = 3000 if spec.slow or spec.bulk < 0.5 else 1100000
    return sorted(({9, 10, 16, 100, 128, 1000} | literal_sizes(spec, top)) - {64, 500, 5000})


def one_form(spec, f, alts, subset, form, base, cols, res):
    n, build, kind = FORMS[form]
    args, vals, snaps = [], [], []
    for i, p in enumerate(spec.params):
        if i in subset:
            c = cols[:, subset.index(i)]
            if kind == "nan":
                c = c[:5].copy()
                odd = form in ODD_FORMS
                pos = 2 if odd else {"nan0": 0, "nanmid": 2, "nanlast": 4}[form]
                if subset.index(i) == 0:
                    c[pos] = np.nan if not odd else {"infmid": np.inf, "above": p.hi + 0.6 * (abs(p.hi) + p.hi - p.lo), "below": min(p.lo, 0.0) - 0.6 * (p.hi - p.lo), "zeromid": 0.0}[form]
                a = c
            else:
                a = build(np.resize(c, n) if n > len(c) else c[:n])
            args.append(a)
            vals.append(np.array(a, dtype=float))
            snaps.append(np.array(a, dtype=float))
        else:
            v = base[i]
            args.append(v.copy() if isinstance(v, np.ndarray) else v)
            vals.append(v)
            snaps.append(None)
    aw = [(kid, safe_ref(r, [v.copy() if isinstance(v, np.ndarray) else v for v in vals])) for kid, r in alts]
    ext = slack(spec, vals)
    if kind == "f32":
        # single precision arithmetic: rounding is 1e9 times coarser than in double precision, the range ends near 1e38
        cond = safe_ref(spec.tol, vals) if spec.tol else None
        if ext:
            ext = [1e6 * e + (1e9 * cond[k] if cond is not None else 0.0) for k, e in enumerate(ext)]
        with np.errstate(all="ignore"):
            aw = [(k, [np.where(np.abs(x) > 1e30, np.nan, x) for x in w]) for k, w in aw]
    if form in ODD_FORMS:
        def hide(x):
            x = np.array(x, complex if np.asarray(x).dtype.kind == "c" else float)
            if x.ndim and x.shape[0] == 5:
                x[2] = np.nan
            return x
        aw = [(k, [hide(x) for x in w]) for k, w in aw]
    res.states += 1
    tag = "%s given as %s" % ("+".join(spec.params[i].name for i in subset), form)
    try:
        o = outs(call(f, args))
    except Timeout:
        raise
    except Exception as e:
        if pristine.RELATIVE and not pristine.scalar_works(spec, args, subset):
            return
        if form in ODD_FORMS:
            try:
                call(f, [float(a[2]) if i in subset else a for i, a in enumerate(args)])
            except Exception:
                res.skipped += 1                  # the odd element is not accepted on its own either
                return
        res.viol("form", "%s: raises %s: %s" % (tag, type(e).__name__, e), form=form, subset=[spec.params[i].name for i in subset], point=describe(spec, vals))
        return
    if form in ODD_FORMS:
        o = [hide(x) for x in o]
    res.transitions += 1
    res.traces += 1
    for a, s, p in zip(args, snaps, spec.params):
        if s is not None and not np.array_equal(np.array(a, dtype=float), s, equal_nan=True):
            res.viol("form", "%s: argument %s was modified" % (tag, p.name), form=form, subset=[spec.params[i].name for i in subset], point=describe(spec, vals))
            return
    scal = form in ("pyfloat", "npf64", "npf32", "pyint", "npi64", "0d")
    rt, at = (3e-3, max(spec.atol, 1e-4)) if kind == "f32" else (None, None)
    if scal and spec.scalar_shape:
        o = [x.reshape(()) if x.shape == spec.scalar_shape else x for x in o]
        aw = [(k, [np.asarray(x).reshape(()) for x in w]) for k, w in aw]
        ext = [np.asarray(x).reshape(()) for x in ext] if ext else None
    m = compare(spec, o, aw, res, rt, at, extra=ext)
    if m and not pristine.same_scalars(spec, args, subset, o, scal or form == "len1"):
        res.viol("form", "%s: %s" % (tag, m[0]), form=form, subset=[spec.params[i].name for i in subset], point=describe(spec, vals) if kind == "nan" or n < 10 else {"base": describe(spec, base)})


def explore_S(spec, only=None):
    res = Res(spec.fn)
    if not spec.elementwise:
        return res
    f = spec.impl()
    alts = alternatives(spec)
    subs, pairs, allbut = subsets(spec)
    for n in form_sizes(spec):
        FORMS["len%d" % n] = (n, lambda x: x.copy(), "f")
    allsub = tuple(i for i, p in enumerate(spec.params) if p.arr and p.kind == "num")
    sizes = [(s, "len%d" % n) for n in form_sizes(spec) for s in ([allsub] + [(i,) for i in allsub[:: max(1, len(allsub) // 3)]] if n < 3000 else [allsub] + [(i,) for i in allsub if len(allsub) > 1 and (n < 150000 or i == allsub[-1])])] if allsub else []
    jobs = sizes + [(s, form) for s in subs for form in STATIC_FORMS] + [(s, form) for s in pairs for form in (STATIC_FORMS if THOROUGH else PAIR_FORMS)] + \
           [(s, form) for s in allbut for form in (STATIC_FORMS if THOROUGH else PAIR_FORMS)]
    pool = {}
    for s, form in jobs:
        if banned(spec, s, form):
            continue
        n, _, kind = FORMS[form]
        k = (s, (10000 if n > 5000 else 5000) if n > 500 else 500 if n > 64 else 64, kind if kind == "i" else "f")
        if k not in pool:
            pool[k], _ = value_pool(spec, s, k[1], k[2])
        if not pool[k]:
            continue
        for base, cols in (pool[k] if (THOROUGH or len(s) == 1) else pool[k][:1]):
            one_form(spec, f, alts, s, form, base, cols, res)
    # outer broadcasting of two arguments: (n,1) against (m,)
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    for i, j in itertools.permutations(A, 2):
        if banned(spec, (i,), "bcast") or banned(spec, (j,), "bcast"):
            continue
        b = spec.base_points()[0]
        vi, vj = [x for x in spec.params[i].vals][:4], [x for x in spec.params[j].vals][:3]
        keep_i = [x for x in vi if spec.ok([tuple(list(b[:i]) + [x] + list(b[i + 1:]))])[0]]
        keep_j = [x for x in vj if spec.ok([tuple(list(b[:j]) + [x] + list(b[j + 1:]))])[0]]
        good = all(spec.ok([tuple(x if k == i else y if k == j else b[k] for k in range(len(b)))])[0] for x in keep_i for y in keep_j)
        if not good:
            keep_i, keep_j = keep_i[:1], keep_j
        if not keep_i or not keep_j:
            continue
        args = [v.copy() if isinstance(v, np.ndarray) else v for v in b]
        args[i] = np.array(keep_i, float)[:, None]
        args[j] = np.array(keep_j, float)
        aw = [(kid, safe_ref(r, args)) for kid, r in alts]
        ext = slack(spec, args)
        res.states += 1
        tag = "%s as (n,1) with %s as (m,)" % (spec.params[i].name, spec.params[j].name)
        try:
            o = outs(call(f, args))
        except Timeout:
            raise
        except Exception as e:
            res.viol("form", "%s: raises %s: %s" % (tag, type(e).__name__, e), form="bcast", subset=[spec.params[i].name, spec.params[j].name])
            continue
        res.transitions += 1
        m = compare(spec, o, aw, res, extra=ext)
        if m and not pristine.same_scalars(spec, args, (i, j), o, False):
            res.viol("form", "%s: %s" % (tag, m[0]), form="bcast", subset=[spec.params[i].name, spec.params[j].name])
    equal_pairs(spec, f, alts, A, res)
    if not res.samples:
        res.samples.append(dict(fn=spec.fn, forms=len(jobs)))
    res.info["forms:" + spec.fn] = res.states
    return res


def equal_pairs(spec, f, alts, A, res):
    """two arguments with the very same value while one further argument, or all further ones, are arrays"""
    P = [i for i, p in enumerate(spec.params) if p.kind == "num"]
    cap = (400 if THOROUGH else 40) if spec.slow or spec.bulk < 0.5 else 4000 if THOROUGH else 700
    b = next((x for x in spec.base_points() if spec.ok([tuple(x)])[0]), None)
    if b is None:
        return
    jobs = []
    for i, j in itertools.permutations(P, 2):
        if not spec.params[j].lo <= b[i] <= spec.params[j].hi or (b[i] == b[j] and i > j):
            continue
        q = list(b)
        q[j] = b[i]
        if not spec.ok([tuple(q)])[0]:
            continue
        rest = [k for k in A if k not in (i, j)]
        for s in [(k,) for k in rest] + ([tuple(rest)] if len(rest) > 1 else []):
            jobs.append((i, j, q, s))
    if len(jobs) > cap:
        jobs = [jobs[int(t * len(jobs) / cap)] for t in range(cap)]
    for i, j, q, s in jobs:
        args = [v.copy() if isinstance(v, np.ndarray) else v for v in q]
        cols = []
        for k in s:
            good = [v for v in spec.params[k].vals if isinstance(v, (int, float)) and spec.ok([tuple(q[:k] + [v] + q[k + 1:])])[0]][:3]
            cols.append((good + [q[k]] * 3)[:3])
        if len(s) > 1 and not spec.ok([tuple(cols[s.index(k)][t] if k in s else q[k] for k in range(len(q))) for t in range(3)]).all():
            cols = [[q[k]] * 3 for k in s]
        for k, c in zip(s, cols):
            args[k] = np.array(c, float)
        aw = [(kid, safe_ref(r, [v.copy() if isinstance(v, np.ndarray) else v for v in args])) for kid, r in alts]
        ext = slack(spec, args)
        snap = [v.copy() if isinstance(v, np.ndarray) else v for v in args]
        tag = "%s equal to %s, %s given as len3" % (spec.params[j].name, spec.params[i].name, "+".join(spec.params[k].name for k in s))
        res.states += 1
        try:
            o = outs(call(f, args))
        except Timeout:
            raise
        except Exception as e:
            if not np.isfinite(aw[0][1][0]).all() or (pristine.RELATIVE and not pristine.scalar_works(spec, args, s)):
                continue
            res.viol("form", "%s: raises %s: %s" % (tag, type(e).__name__, e), form="equal", subset=[spec.params[k].name for k in s], point=describe(spec, snap))
            return
        res.transitions += 1
        m = compare(spec, o, aw, res, extra=ext)
        if m and not pristine.same_scalars(spec, args, s, o, False):
            res.viol("form", "%s: %s" % (tag, m[0]), form="equal", subset=[spec.params[k].name for k in s], point=describe(spec, snap))
            return


# ------------------------------------------------------------------------------------------ structured arguments
def _embed(x):
    b = np.full(tuple(2 * n + 1 for n in x.shape), -987.654)
    v = b[tuple(slice(1, 2 * n, 2) for n in x.shape)]
    v[...] = x
    return v


def _readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def _flip(x):
    s = tuple(slice(None, None, -1) for _ in x.shape)
    return x[s].copy()[s]


OBJ_FORMS = {
    "fortran": lambda x: np.asfortranarray(x) if x.ndim > 1 else None,
    "strided": _embed,
    "readonly": _readonly,
    "reversed view": _flip,
    "bigendian": lambda x: x.astype(">f8"),
    "float32": lambda x: x.astype(np.float32),
    "int64": lambda x: x.astype(np.int64) if np.all(x == np.round(x)) else None,
}


def _single_slack(spec, idx, vals):
    """effect of single-precision rounding of every element of the structured arguments on the reference result"""
    base = safe_ref(spec.ref, vals)
    tot = [np.zeros(np.shape(b)) for b in base]
    for i in idx:
        for k in range(vals[i].size):
            w = vals[i].copy()
            w.reshape(-1)[k] *= 1 + 1e-7
            try:
                r = safe_ref(spec.ref, [w if j == i else v for j, v in enumerate(vals)])
            except (ZeroDivisionError, np.linalg.LinAlgError):
                continue
            for t, x, b in zip(tot, r, base):
                t += np.nan_to_num(np.abs(x - b), nan=0.0, posinf=0.0)
    return [30 * t for t in tot]


def explore_O(spec):
    """every value of every structured argument in every memory form; the numbers must not depend on the form"""
    res = Res(spec.fn)
    objs = [i for i, p in enumerate(spec.params) if p.kind == "obj"]
    f = spec.impl()
    alts = alternatives(spec)
    jobs = []
    for b in spec.base_points():
        for i in objs:
            for v in spec.params[i].vals:
                if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                    q = list(b)
                    q[i] = v
                    if spec.ok([tuple(q)])[0]:
                        jobs.append((q, (i,)))
        both = tuple(i for i in objs if isinstance(b[i], np.ndarray))
        if len(both) > 1:
            jobs.append((list(b), both))
    for q, idx in jobs:
        for form, build in OBJ_FORMS.items():
            if any(s in spec.noforms for s in [form] + ["%s:%s" % (spec.params[i].name, form) for i in idx]):
                continue
            args = [x.copy() if isinstance(x, np.ndarray) else x for x in q]
            bad = False
            for i in idx:
                y = build(np.array(q[i], float))
                if y is None:
                    bad = True
                else:
                    args[i] = y
            if bad:
                continue
            vals = [np.array(a, dtype=float) if isinstance(a, np.ndarray) else a for a in args]
            snap = [v.copy() if isinstance(v, np.ndarray) else v for v in vals]
            try:
                aw = [(kid, safe_ref(r, [v.copy() if isinstance(v, np.ndarray) else v for v in vals])) for kid, r in alts]
            except (ZeroDivisionError, np.linalg.LinAlgError):
                continue
            if spec.elementwise and spec.scalar_shape:
                aw = [(k, [np.asarray(x).reshape(spec.scalar_shape) if np.asarray(x).ndim == 0 else x for x in w]) for k, w in aw]
            tag = "%s given as %s" % ("+".join(spec.params[i].name for i in idx), form)
            res.states += 1
            try:
                o = outs(call(f, args))
            except Timeout:
                raise
            except Exception as e:
                res.viol("form", "%s: raises %s: %s" % (tag, type(e).__name__, e), form=form, subset=[spec.params[i].name for i in idx], point=describe(spec, vals))
                continue
            res.transitions += 1
            for a, s, p in zip(args, snap, spec.params):
                if isinstance(s, np.ndarray) and not np.array_equal(np.array(a, dtype=float), s, equal_nan=True):
                    res.viol("form", "%s: argument %s was modified" % (tag, p.name), form=form, subset=[spec.params[i].name for i in idx], point=describe(spec, vals))
            rt, at = (3e-3, max(spec.atol, 1e-4)) if form == "float32" else (None, None)
            m = compare(spec, o, aw, res, rt, at)
            if m and form == "float32":
                m = compare(spec, o, aw, res, rt, at, extra=_single_slack(spec, idx, vals))
            if m and not pristine.same_alone(spec.fn, [np.array(v, order="C", copy=True) if isinstance(v, np.ndarray) else v for v in vals], got=o):
                res.viol("form", "%s: %s" % (tag, m[0]), form=form, subset=[spec.params[i].name for i in idx], point=describe(spec, vals))
    res.info["object_forms:" + spec.fn] = res.states
    return res


# ------------------------------------------------------------------------------------------ integer-typed scalars
N_FORMS = {"pyint": int, "npi64": np.int64, "npf64": np.float64}


def explore_N(spec):
    """every numeric argument, every argument but one, and all arguments given as Python / numpy integers"""
    res = Res(spec.fn)
    nums = [i for i, p in enumerate(spec.params) if p.kind == "num" and p.int_values()]
    if not nums or spec.fn.count("#SI"):
        return res
    f = spec.impl()
    alts = alternatives(spec)
    subs = [(i,) for i in nums]
    if len(nums) > 2:
        subs += [tuple(x for x in nums if x != i) for i in nums]
    if len(nums) > 1:
        subs.append(tuple(nums))
    seen = set()
    for b in spec.base_points():
        for s in subs:
            for k in range(3 if spec.slow else 14):
                q = list(b)
                for j, i in enumerate(s):
                    iv = spec.params[i].int_values()
                    near = min(iv, key=lambda x: abs(x - b[i]))
                    n = iv.index(near)
                    d = (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7)[k]
                    q[i] = float(iv[(n + (d if len(s) == 1 else ((d + 2 * j * (k > 0)) % 3) - 1 if k else 0)) % len(iv)])
                key = (s, tuple(x if isinstance(x, (int, float, str, bool)) else id(x) for x in q))
                if key in seen or not spec.ok([tuple(q)])[0]:
                    continue
                seen.add(key)
                vals = [x if spec.params[i].kind == "num" else (x.copy() if isinstance(x, np.ndarray) else x) for i, x in enumerate(q)]
                try:
                    aw = [(kid, safe_ref(r, [np.asarray(v, float) if spec.elementwise and spec.params[i].kind == "num" else v for i, v in enumerate(vals)])) for kid, r in alts]
                except (ZeroDivisionError, np.linalg.LinAlgError):
                    continue
                if not all(np.isfinite(w).all() for w in aw[0][1]):
                    continue
                ext = slack(spec, [np.asarray(v, float) if spec.params[i].kind == "num" else v for i, v in enumerate(vals)]) if spec.elementwise else None
                for form, cast in N_FORMS.items():
                    args = [cast(v) if i in s else (v.copy() if isinstance(v, np.ndarray) else v) for i, v in enumerate(vals)]
                    tag = "%s given as %s" % ("+".join(spec.params[i].name for i in s), form)
                    res.states += 1
                    try:
                        o = outs(call(f, args))
                    except Timeout:
                        raise
                    except Exception as e:
                        if pristine.RELATIVE and pristine.alone(spec.fn, vals)[0] != "ok":
                            continue
                        res.viol("form", "%s: raises %s: %s" % (tag, type(e).__name__, e), form=form, point=describe(spec, vals))
                        if len(res.viols) >= 5:
                            return res
                        continue
                    res.transitions += 1
                    if spec.elementwise:
                        o = [x.reshape(()) if x.size == 1 else x for x in o]
                    want = [(kid, [np.asarray(x).reshape(()) if spec.elementwise and np.asarray(x).size == 1 else x for x in w]) for kid, w in aw]
                    m = compare(spec, o, want, res, extra=[np.asarray(x).reshape(()) for x in ext] if ext else None, args=vals)
                    if m and pristine.RELATIVE:
                        a = pristine.alone(spec.fn, vals)
                        if a[0] == "ok" and len(a[1]) == len(o) and all(pristine.near(np.asarray(x).reshape(np.shape(y)) if np.size(x) == np.size(y) else x, y, max(spec.rtol, 1e-9), spec.atol) for x, y in zip(a[1], o)):
                            m = None
                    if m:
                        res.viol("form", "%s: %s" % (tag, m[0]), form=form, point=describe(spec, vals))
                        if len(res.viols) >= 5:
                            return res
    res.info["integer_forms:" + spec.fn] = res.states
    return res
