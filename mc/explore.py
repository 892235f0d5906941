"""Explorers L (lattice), S (forms), H (histories), A (aborts)."""
import itertools
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import pandas as pd

from . import pristine
from .core import (THOROUGH, Spec, columns, describe, family_points, grid2_points, lattice_points, mism, outs, sweep_points)

CALL_TIMEOUT = 120


class Res:
    def __init__(self, fn):
        self.fn = fn
        self.states = 0          # distinct lattice points / forms / history nodes visited
        self.transitions = 0     # implementation calls compared with the reference
        self.skipped = 0         # points outside the domain or with undefined reference value
        self.traces = 0          # multi-step traces (histories, chains, schedules) validated on the implementation
        self.viols = []
        self.known = {}
        self.samples = []
        self.info = {}

    def merge(self, o):
        for k in ("states", "transitions", "skipped", "traces"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.viols += o.viols
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.samples += o.samples[:2]
        for k, v in o.info.items():
            if isinstance(v, (int, float)) and k in self.info:
                self.info[k] += v
            else:
                self.info.setdefault(k, v)
        return self

    def viol(self, kind, msg, **data):
        if len(self.viols) < 5:
            self.viols.append(dict(fn=self.fn, kind=kind, msg=msg, **data))


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout("call did not return within %d s" % CALL_TIMEOUT)


def call(f, args):
    return f(*args)


def safe_ref(ref, args):
    with np.errstate(all="ignore"):
        return outs(ref(*args))


EPS = 1e-12


def slack(spec, args):
    """absolute tolerance per output element: the spec's own conditioning term plus the change of the reference model
    when every numeric argument moves by one part in 1e12 (the smaller of the two directions, so that steps of a
    piecewise definition give no slack on their own side).  Singular points thereby never raise a false alarm."""
    out = safe_ref(spec.tol, args) if spec.tol else None
    if not spec.elementwise:
        return out
    with np.errstate(all="ignore"):
        base = safe_ref(spec.ref, args)
        tot = [np.zeros(np.shape(b)) for b in base]
        for i, p in enumerate(spec.params):
            if p.kind != "num":
                continue
            d = []
            for sg in (1 + EPS, 1 - EPS):
                a = list(args)
                a[i] = np.asarray(a[i], dtype=float) * sg
                try:
                    r = safe_ref(spec.ref, a)
                    d.append([np.abs(x - b) if np.shape(x) == np.shape(b) else np.zeros(np.shape(b)) for x, b in zip(r, base)])
                except Exception:
                    pass
            for k in range(len(tot)):
                if d:
                    m = np.fmin.reduce([x[k] for x in d])
                    tot[k] = tot[k] + np.where(np.isfinite(m), m, 0.0)
    return [t + (out[k] if out is not None else 0.0) for k, t in enumerate(tot)]


def alternatives(spec):
    """[(finding id or None, reference)]: the correct reference first, then listed known-defective variants"""
    from .findings import LISTED
    alts = [(None, spec.ref)]
    for kid, dref in spec.known:
        if kid == "ok" or kid in LISTED:      # "ok": an equally correct variant
            alts.append((kid, dref))
    return alts


def _wiggle(v, s):
    """a float argument (number, sequence or array) moved by the relative amount s; None if it holds no floats"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return None
    if isinstance(v, (float, np.floating)):
        return v * (1 + s)
    if isinstance(v, np.ndarray):
        return v * (1 + s) if v.dtype.kind == "f" else None
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, (float, np.floating)) for x in v):
        return type(v)(x * (1 + s) for x in v)
    return None


def obj_slack(spec, args):
    """as `slack`, for functions of structured arguments (computed only when a comparison fails)"""
    out = safe_ref(spec.tol, args) if spec.tol else None
    base = safe_ref(spec.ref, args)
    tot = [np.zeros(np.shape(b)) if out is None else out[k] + np.zeros(np.shape(b)) for k, b in enumerate(base)]
    for i in range(len(args)):
        d = []
        for sg in (EPS, -EPS):
            v = _wiggle(args[i], sg)
            if v is None:
                continue
            a = list(args)
            a[i] = v
            try:
                r = safe_ref(spec.ref, a)
                d.append([np.abs(x - b) if np.shape(x) == np.shape(b) else np.zeros(np.shape(b)) for x, b in zip(r, base)])
            except Exception:
                pass
        for k in range(len(tot)):
            if d:
                m = np.fmin.reduce([np.asarray(x[k], float) for x in d])
                tot[k] = tot[k] + np.where(np.isfinite(m), m, 0.0)
    return tot


def compare(spec, got, alts_out, res, rtol=None, atol=None, shapes=True, extra=None, args=None):
    """got: list of arrays; alts_out: [(kid, list of arrays)].  Returns None if fine, else (message, element index)."""
    m = _compare(spec, got, alts_out, res, rtol, atol, shapes, extra)
    if m and m[1] is not None and args is not None and not spec.elementwise:
        try:
            m = _compare(spec, got, alts_out, res, rtol, atol, shapes, obj_slack(spec, args))
        except Exception:
            pass
    return m


def _compare(spec, got, alts_out, res, rtol=None, atol=None, shapes=True, extra=None):
    want = alts_out[0][1]
    if len(got) != len(want):
        return "returns %d values, expected %d" % (len(got), len(want)), None
    for i, (g, w) in enumerate(zip(got, want)):
        if shapes and g.shape != w.shape:
            return "output %d has shape %s, expected %s" % (i, g.shape, w.shape), None
    first = None
    for kid, alt in alts_out:
        worst = None
        hits = 0
        for i, g in enumerate(got):
            ex = 0.0 if extra is None else extra[i]
            w = np.asarray(alt[i])
            if w.shape != g.shape:
                try:
                    w = np.broadcast_to(w, g.shape)
                except ValueError:
                    worst = ("output %d has shape %s, expected %s" % (i, g.shape, w.shape), None)
                    break
            bad = mism(spec, g, w, rtol, atol, ex)
            if kid is not None:
                with np.errstate(all="ignore"):
                    bad |= ~np.isfinite(w) & np.isfinite(g.astype(complex) if g.dtype == object else g)
                hits += int(mism(spec, g, want[i], rtol, atol, ex).sum())
            if bad.any():
                idx = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
                gi = np.atleast_1d(g)[idx]
                wi = np.atleast_1d(w)[idx]
                worst = ("output %d%s is %r, expected %r" % (i, list(idx), gi.item(), wi.item()), idx)
                break
        if worst is None:
            if kid not in (None, "ok"):
                res.known[kid] = res.known.get(kid, 0) + hits
            return None
        first = first or worst
    return first


# ------------------------------------------------------------------------------------------ L
def _groups(spec, pts, by_scalar_only):
    """group points so that every non-array argument is constant inside a group"""
    g = {}
    for q in pts:
        k = tuple((x if isinstance(x, (int, float, str, bool, type(None))) else id(x))
                  for x, p in zip(q, spec.params) if p.kind != "num" or (by_scalar_only and not p.arr))
        g.setdefault(k, []).append(q)
    return list(g.values())


def _cols(spec, grp, by_scalar_only):
    args = []
    for i, p in enumerate(spec.params):
        if p.kind != "num" or (by_scalar_only and not p.arr):
            args.append(grp[0][i])
        else:
            args.append(np.array([q[i] for q in grp], dtype=float))
    return args


def _scalarise(spec, q):
    return [(float(x) if p.kind == "num" and not isinstance(x, (int, bool)) else (x.copy() if isinstance(x, np.ndarray) else x))
            for x, p in zip(q, spec.params)]


def run_scalar(spec, pts, res, per=4000):
    """call the implementation once per lattice point with plain scalars"""
    f = spec.impl()
    alts = alternatives(spec)
    for grp in _groups(spec, pts, False):
        for s in range(0, len(grp), per):
            chunk = grp[s:s + per]
            ok = spec.ok(chunk)
            chunk = [q for q, o in zip(chunk, ok) if o]
            res.skipped += int((~ok).sum())
            if not chunk:
                continue
            if spec.elementwise:
                cols = _cols(spec, chunk, False)
                aw = [(kid, [np.broadcast_to(w, (len(chunk),)) for w in safe_ref(r, cols)]) for kid, r in alts]
                ext = [np.broadcast_to(w, (len(chunk),)) for w in slack(spec, cols)]
            for j, q in enumerate(chunk):
                res.states += 1
                if spec.elementwise:
                    want = [(kid, [w[j] for w in ws]) for kid, ws in aw]
                    if not any(np.isfinite(w).all() for w in want[0][1]) and not spec.nan_sig:
                        res.skipped += 1
                        continue
                else:
                    try:
                        want = [(kid, safe_ref(r, _scalarise(spec, q))) for kid, r in alts]
                    except (ZeroDivisionError, np.linalg.LinAlgError):
                        res.skipped += 1
                        continue
                args = _scalarise(spec, q)
                snap = [a.copy() if isinstance(a, np.ndarray) else (list(a) if isinstance(a, list) else a) for a in args]
                try:
                    o = outs(call(f, args))
                except Timeout:
                    raise
                except Exception as e:
                    if all(np.isfinite(w).all() for w in want[0][1]) and not (pristine.RELATIVE and not pristine.array_works(spec, snap)):
                        res.viol("lattice", "raises %s: %s" % (type(e).__name__, e), point=describe(spec, q))
                        if len(res.viols) >= 5:
                            return
                    else:
                        res.skipped += 1
                    continue
                res.transitions += 1
                for a, b, p in zip(args, snap, spec.params):
                    if isinstance(b, np.ndarray):
                        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                            res.viol("lattice", "argument %s was modified" % p.name, point=describe(spec, q))
                    elif isinstance(b, list) and a != b:
                        res.viol("lattice", "argument %s was modified" % p.name, point=describe(spec, q))
                if spec.elementwise:
                    shp = spec.scalar_shape or ()
                    wrong = [x.shape for x in o if x.shape != shp]
                    if wrong:
                        res.viol("lattice", "scalar arguments give shape %s, expected %s" % (wrong[0], shp), point=describe(spec, q))
                        return
                    o = [x.reshape(()) for x in o]
                m = compare(spec, o, want, res, extra=[w[j] for w in ext] if spec.elementwise and ext else None, args=snap)
                if m and not (pristine.RELATIVE and pristine.same_scalars(spec, snap, pristine.array_subset(spec), o, True)):
                    res.viol("lattice", m[0], point=describe(spec, q))
                    if len(res.viols) >= 5:
                        return
                if not res.samples:
                    res.samples.append(dict(fn=spec.fn, point=describe(spec, q), got=[x.tolist() if x.size < 8 else list(x.shape) for x in o]))


def nd_ok(spec):
    from .forms import banned
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    return len(A) > 0 and not banned(spec, A, "2d") and not banned(spec, A, "2dT")


def run_bulk(spec, pts, res, nd=False):
    """call the implementation with whole columns of lattice points as arrays (nd: folded into two dimensions)"""
    if not spec.elementwise or not any(p.arr for p in spec.params):
        return
    if nd and not nd_ok(spec):
        return
    f = spec.impl()
    alts = alternatives(spec)
    ok = spec.ok(pts)
    res.skipped += int((~ok).sum())
    pts = [q for q, o in zip(pts, ok) if o]
    for grp in _groups(spec, pts, True):
        if nd:
            grp = grp + grp[:len(grp) % 2]
        args = _cols(spec, grp, True)
        if nd:
            args = [a.reshape(2, -1).T if p.kind == "num" and isinstance(a, np.ndarray) else a for a, p in zip(args, spec.params)]
        snap = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        aw = [(kid, safe_ref(r, [a.copy() if isinstance(a, np.ndarray) else a for a in args])) for kid, r in alts]
        res.states += len(grp)
        try:
            o = outs(call(f, args))
        except Timeout:
            raise
        except Exception as e:
            res.viol("bulk", "raises %s: %s on arrays of %d in-domain points" % (type(e).__name__, e, len(grp)),
                     first=describe(spec, grp[0]), n=len(grp))
            return
        res.transitions += len(grp)
        for a, b, p in zip(args, snap, spec.params):
            if isinstance(b, np.ndarray) and not np.array_equal(a, b, equal_nan=True):
                res.viol("bulk", "argument %s was modified" % p.name, first=describe(spec, grp[0]), n=len(grp))
                return
        m = compare(spec, o, aw, res, extra=slack(spec, args))
        if nd:
            if m:
                idx = m[1]
                if idx and pristine.RELATIVE:
                    bad = np.zeros(len(grp), bool)
                    for g, w in zip(o, aw[0][1]):
                        bad |= mism(spec, g, w).reshape(-1)
                    if pristine.bulk_elements(spec, [a.reshape(-1) if p.kind == "num" and isinstance(a, np.ndarray) else a for a, p in zip(snap, spec.params)], [g.reshape(-1) for g in o], bad) is None:
                        continue
                i = idx[1] * (len(grp) // 2) + idx[0] if idx and len(idx) == 2 else 0
                res.viol("bulk", m[0] + " (two-dimensional array call with %d points)" % len(grp), point=describe(spec, grp[min(i, len(grp) - 1)]), n=len(grp), index=i)
                if len(res.viols) >= 5:
                    return
            continue
        if m and pristine.RELATIVE and m[1]:
            bad = np.zeros(len(grp), bool)
            for g, w in zip(o, aw[0][1]):
                bad |= mism(spec, g, w)
            k = pristine.bulk_elements(spec, snap, o, bad)
            m = ("element %d of an array call differs from the scalar call" % k, (k,)) if k is not None else None
        if m:
            i = m[1][0] if m[1] else 0
            res.viol("bulk", m[0] + " (array call with %d points)" % len(grp), point=describe(spec, grp[min(i, len(grp) - 1)]),
                     n=len(grp), index=i)
            if len(res.viols) >= 5:
                return


def plan_L(spec):
    """choose the deviation bound that fits the budget; the bound actually completed is reported"""
    budget = spec.max_scalar or (120000 if THOROUGH else 20000)
    t0 = spec.t_thorough if THOROUGH else spec.t_quick
    cap, full = (16, 40000) if THOROUGH else (10, 6000)
    for t in range(t0, 0, -1):
        for litpair, around in ((True, True), (False, True), (False, False)):
            pts = lattice_points(spec, t, lit_cap=cap, full_cap=min(budget, full), litpair=litpair, around=around)
            if len(pts) <= budget:
                return t, pts
    return t, pts


def explore_L(spec):
    res = Res(spec.fn)
    if pristine.RELATIVE and not (spec.elementwise and any(p.arr for p in spec.params)):
        return res
    t, pts = plan_L(spec)
    n1 = spec.sweep_n or (401 if THOROUGH else 101)
    if spec.slow:
        n1 = spec.sweep_n or (41 if THOROUGH else 9)
    sw = sweep_points(spec, n1)
    run_scalar(spec, pts, res)
    run_scalar(spec, sw, res)
    if spec.families is not None and not res.viols:
        run_scalar(spec, family_points(spec), res)
    if not res.viols and spec.elementwise and any(p.arr for p in spec.params):
        big = lattice_points(spec, min(t + 1, 3), lit_cap=10, full_cap=100000 if THOROUGH else 20000)
        if len(big) > (1500000 if THOROUGH else 150000) * spec.bulk:
            big = pts
        run_bulk(spec, big, res)
        if not res.viols:
            run_bulk(spec, pts if spec.slow else big, res, nd=True)
        if not spec.slow:
            run_bulk(spec, sweep_points(spec, int((2001 if THOROUGH else 401) * spec.bulk)), res)
            run_bulk(spec, grid2_points(spec, int((33 if THOROUGH else 13) * spec.bulk ** 0.5)), res)
    res.info["deviation_bound:" + spec.fn] = t
    res.info["lattice_points:" + spec.fn] = len(pts)
    return res
