"""Explorers H (call histories), A (aborted calls) and P (cross-function histories).

An *operation* is one complete call (arguments + expected outputs by the reference model).  A history is a word over
the operation alphabet of a function.  All words up to the depth bound are executed on the implementation in one
process; every step is compared with the reference, arguments and earlier results are watched, process-wide settings
are compared before and after.
"""
import decimal
import gc
import itertools
import locale
import logging
import os
import pickle
import random
import select
import signal
import sys
import time
import warnings

import numpy as np
from scipy import special as sp_special

from .core import REPO, THOROUGH, describe, lattice_points, sweep_values
from .explore import Res, Timeout, alternatives, call, compare, outs, safe_ref, slack, _scalarise
from .forms import banned, value_pool
from . import pristine

PKG = os.path.realpath(os.path.join(REPO, "rockphypy")) + os.sep


# ---------------------------------------------------------------------------------- process-wide settings
def settings(rc=False):
    s = [tuple(sorted(np.geterr().items())), tuple(map(repr, warnings.filters)), np.random.get_state()[1].tobytes(), np.random.get_state()[2],
         hash(random.getstate()), tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())), os.getcwd(), np.geterrcall(),
         (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), np.getbufsize(), warnings.showwarning, logging.root.level, len(logging.root.handlers), decimal.getcontext().prec,
          sys.excepthook, sys.stdout, sys.stderr, locale.setlocale(locale.LC_ALL, None)),
         tuple(os.environ.items())]
    s.append(tuple(sorted(sp_special.geterr().items())))
    if "pandas" in sys.modules:
        import pandas as pd
        s.append((pd.get_option("display.precision"), pd.get_option("display.max_rows")))
    if rc and "matplotlib" in sys.modules:
        import matplotlib
        s.append(tuple(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())))
    return s


SETTING_NAMES = ["numpy error handling", "warning filters", "numpy random state", "numpy random state", "random state", "numpy print options", "working directory", "numpy error callback",
                 "interpreter settings", "environment variables", "scipy.special error handling",
                 "pandas options", "matplotlib rcParams"]


def settings_diff(a, b):
    for n, x, y in zip(SETTING_NAMES, a, b):
        if x != y:
            return n
    return None


# ---------------------------------------------------------------------------------- operations
class Op:
    """one call: `args` are rebuilt for every execution unless the operation owns persistent buffers"""

    def __init__(self, spec, name, args, buffers=None):
        self.spec, self.name, self.proto, self.buffers = spec, name, args, buffers
        self.want = [(k, safe_ref(r, [_cp(a) for a in args])) for k, r in alternatives(spec)]
        if spec.elementwise and spec.scalar_shape and all(np.ndim(a) == 0 for a, p in zip(args, spec.params) if p.arr and p.kind == "num"):
            self.want = [(k, [np.asarray(x).reshape(spec.scalar_shape) if np.asarray(x).ndim == 0 else x for x in w]) for k, w in self.want]
        self.ext = slack(spec, args)

    def finite(self):
        return any(np.isfinite(w).any() for w in self.want[0][1]) and all(np.asarray(w).size for w in self.want[0][1])

    def build(self):
        if self.buffers is None:
            return [_cp(a) for a in self.proto]
        out = []
        for a, b in zip(self.proto, self.buffers):
            if b is None:
                out.append(_cp(a))
            else:
                b[...] = a
                out.append(b)
        return out


def _cp(a):
    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, list):
        return list(a)
    return a


def _same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, list):
        return a == b
    return True


def _ok1(spec, q):
    return bool(spec.ok([tuple(q)])[0])


def operations(spec):
    """(core alphabet, full alphabet)"""
    core, full, seen = [], [], set()

    def add(lst, name, args, buffers=None):
        if name in seen:
            return
        try:
            op = Op(spec, name, args, buffers)
        except (ZeroDivisionError, np.linalg.LinAlgError):
            return
        if op.finite():
            seen.add(name)
            lst.append(op)

    bases = [b for b in spec.base_points() if _ok1(spec, b)]
    if not bases:
        return [], []
    b0 = bases[0]
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    if spec.elementwise and A:
        pool, _ = value_pool(spec, tuple(A), 64, "f")
        if pool:
            base, rows = pool[0]
            u, idx = np.unique(rows, axis=0, return_index=True)
            rows = rows[np.sort(idx)]
            if len(rows) >= 4:
                n = min(6, len(rows) // 2)

                def mk(r, **over):
                    a = list(_cp(x) for x in base)
                    for c, i in enumerate(A):
                        a[i] = r[:, c].copy()
                    for k, v in over.items():
                        a[spec.index[k]] = v
                    return a
                ra, rb = rows[:n], rows[n:2 * n]
                rm = ra.copy()
                rm[n // 2] = rb[0]
                buf = [np.zeros(n) if i in A else None for i in range(len(base))]
                add(core, "array A", mk(ra))
                add(core, "array B", mk(rb))
                add(core, "buffer:=A", mk(ra), buf)
                add(core, "buffer:=B", mk(rb), buf)
                add(full, "array A reversed", mk(ra[::-1]))
                add(full, "array A, middle changed", mk(rm))
                add(full, "array A, shorter", mk(ra[:n - 1]))
                add(full, "array A+B", mk(np.concatenate([ra, rb])))
                if len(rows) > 8:
                    add(full, "long array", mk(np.concatenate([rows] * (1 + 600 // len(rows)))))
                for c, i in enumerate(A):
                    r = ra.copy()
                    r[:, c] = rb[:, c]
                    for t in range(len(r)):
                        q = list(base)
                        for cc, ii in enumerate(A):
                            q[ii] = r[t, cc]
                        if not _ok1(spec, q):
                            r[t] = ra[t]
                    if not np.array_equal(r, ra):
                        add(full, "array A, other %s" % spec.params[i].name, mk(r))
                for i, p in enumerate(spec.params):
                    if p.kind == "cat":
                        for v in p.vals:
                            if v is not base[i] and _all_ok(spec, mk(ra, **{p.name: v}), A):
                                add(full, "array A, %s=%r" % (p.name, v), mk(ra, **{p.name: v}))
    for j, b in enumerate(bases):
        add(core if j < 2 else full, "base %d" % j, _scalarise(spec, b))
    objs = [i for i, p in enumerate(spec.params) if p.kind == "obj"]
    if objs:
        bufs = [np.zeros(np.shape(b0[i]), dtype=float) if i in objs and isinstance(b0[i], np.ndarray) else None for i in range(len(b0))]
        if any(x is not None for x in bufs):
            add(core, "buffer:=base 0", _scalarise(spec, b0), bufs)
            for i in objs:
                if bufs[i] is None:
                    continue
                for v in spec.params[i].vals:
                    q = list(b0)
                    q[i] = v
                    if v is not b0[i] and isinstance(v, np.ndarray) and v.shape == b0[i].shape and _ok1(spec, q):
                        add(core if len(core) < 5 else full, "buffer:=base 0, other %s" % spec.params[i].name, _scalarise(spec, q), bufs)
                        break
    for i, p in enumerate(spec.params):
        k = 0
        for v in p.vals:
            if v is b0[i] or (p.kind == "num" and v == b0[i]):
                continue
            q = list(b0)
            q[i] = v
            if _ok1(spec, q):
                add(full, "base 0, %s=%s" % (p.name, v if p.kind != "obj" else "#%d" % k), _scalarise(spec, q))
                k += 1
                if k >= (4 if p.kind != "num" else 2):
                    break
        if p.kind == "num" and b0[i]:
            for e in (1e-2, 1e-4, 1e-6):
                q = list(b0)
                q[i] = b0[i] * (1 + e)
                if not (p.lo <= q[i] <= p.hi):
                    q[i] = b0[i] * (1 - e)
                if p.lo <= q[i] <= p.hi and _ok1(spec, q):
                    add(full, "base 0, %s*(1+%g)" % (p.name, e), _scalarise(spec, q))
    return core, full


def _all_ok(spec, args, A):
    n = len(args[A[0]])
    return bool(spec.ok([tuple(float(a[t]) if i in A else a for i, a in enumerate(args)) for t in range(n)]).all())


def step(op, f, res, trail, keep=None, scribble=False):
    """execute one operation and check it; returns False on violation"""
    args = op.build()
    snap = [_cp(a) for a in args]
    try:
        raw = call(f, args)
    except Timeout:
        raise
    except Exception as e:
        if pristine.same_alone(op.spec.fn, snap, exc=type(e).__name__):
            return True
        res.viol("history", "history %s: raises %s: %s" % (trail, type(e).__name__, e), history=trail, point=describe(op.spec, snap))
        return False
    res.transitions += 1
    o = outs(raw)
    for a, b, p in zip(args, snap, op.spec.params):
        if not _same(a, b):
            res.viol("history", "history %s: argument %s was modified" % (trail, p.name), history=trail, point=describe(op.spec, snap))
            return False
    m = compare(op.spec, o, op.want, res, extra=op.ext, args=snap)
    if m and not pristine.same_alone(op.spec.fn, snap, got=o):
        res.viol("history", "history %s: %s" % (trail, m[0]), history=trail, point=describe(op.spec, snap))
        return False
    shared = [any(isinstance(a, np.ndarray) and np.may_share_memory(a, x) for a in args) for x in o]
    if keep is not None:
        for x, sh in zip(o, shared):
            if not sh and x.ndim:
                keep.append((x, x.copy(), trail))
    if scribble:
        for x, sh in zip(o, shared):
            if not sh and x.ndim and x.flags.writeable and x.dtype.kind in "fc":
                x[...] = -12345.678
    return True


def words(core, full, slow):
    """the complete set of words that is explored"""
    alls = core + full
    if slow:
        core, alls = core[:3], alls[:10]
        for w in itertools.product(core, repeat=2):
            yield w
        for x in alls:
            yield (core[0], x, core[0])
        return
    for w in itertools.product(alls, repeat=2):
        yield w
    for w in itertools.product(core, repeat=4 if THOROUGH else 3):
        yield w
    for x in core[:2] + core[-2:]:
        for y in full:
            yield (x, y, x)


def flood(spec, f, res):
    """one long history: several hundred different calls, the same calls in reverse, and again; every call must return
    the very numbers it returned the first time (more distinct calls than any bounded memory holds)"""
    cap = (20 if spec.slow else 300) * (4 if THOROUGH else 1)
    pts = lattice_points(spec, 1, lit_cap=4, full_cap=0, litpair=False, around=False)
    pts = [q for q, o in zip(pts, spec.ok(pts)) if o]
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    if A and len(pts) < cap:
        p = spec.params[A[0]]
        b = spec.base_points()[0]
        ext = [tuple(list(b[:A[0]]) + [float(v)] + list(b[A[0] + 1:])) for v in sweep_values(p, cap)]
        pts += [q for q, o in zip(ext, spec.ok(ext)) if o]
    if len(pts) > cap:
        pts = [pts[int(i * len(pts) / cap)] for i in range(cap)]
    first = {}
    n = len(pts)
    for t, k in enumerate(list(range(n)) + list(range(n))[::-1] + list(range(0, n, 2)) + list(range(n))):
        args = _scalarise(spec, pts[k])
        if A and k % 3 == 1:               # every third call passes fresh arrays
            args = [np.array([a, a]) if i in A else a for i, a in enumerate(args)]
        res.states += 1
        try:
            o = [x.copy() for x in outs(call(f, args))]
        except Timeout:
            raise
        except Exception:
            o = None
        res.transitions += 1
        if k not in first:
            first[k] = o
            continue
        w = first[k]
        if (o is None) != (w is None) or (o is not None and not (len(o) == len(w) and all(pristine.near(x, y, 1e-9, spec.atol) for x, y in zip(o, w)))):
            res.viol("history", "call %d of a history of distinct calls differs from the same call made earlier: %r, first %r" % (t, None if o is None else [x.tolist() for x in o][:3], None if w is None else [x.tolist() for x in w][:3]),
                     history="%d distinct calls, reversed, again" % n, point=describe(spec, pts[k]))
            return
    res.traces += 1


SHAPES = [("flat", None, lambda x: x), ("2d", "2d", lambda x: x.reshape(2, 3)), ("2dT", "2dT", lambda x: x.reshape(2, 3).T), ("column", "column", lambda x: x.reshape(6, 1)), ("row", "row", lambda x: x.reshape(1, 6)),
          ("reversed", None, lambda x: x[::-1].copy()), ("3x2", "2d", lambda x: x.reshape(3, 2))]


def shape_words(spec):
    """the same numbers in different arrangements: all ordered pairs, for every array argument alone and all together"""
    A = [i for i, p in enumerate(spec.params) if p.arr and p.kind == "num"]
    for s in [(i,) for i in A] + ([tuple(A)] if len(A) > 1 else []):
        pool, _ = value_pool(spec, s, 64, "f")
        if not pool:
            continue
        base, rows = pool[0]
        u, idx = np.unique(rows, axis=0, return_index=True)
        rows = rows[np.sort(idx)][:6]
        if len(rows) < 6:
            continue
        ops = []
        for name, ban, build in SHAPES:
            if ban and banned(spec, s, ban):
                continue
            a = [_cp(x) for x in base]
            for c, i in enumerate(s):
                a[i] = build(rows[:, c].copy()).copy()
            try:
                op = Op(spec, "%s %s" % ("+".join(spec.params[i].name for i in s), name), a)
            except (ZeroDivisionError, np.linalg.LinAlgError):
                continue
            if op.finite():
                ops.append(op)
        if spec.slow:
            ops = ops[:3]
        for w in itertools.permutations(ops, 2):
            yield w


def explore_H(spec):
    res = Res(spec.fn)
    f = spec.impl()
    core, full = operations(spec)
    if not core:
        return res
    if len(full) > (90 if THOROUGH else 44):                # many parameters: keep an even spread
        k = 90 if THOROUGH else 44
        full = [full[int(i * len(full) / k)] for i in range(k)]
    s0 = settings()
    for scribble in (False, True):
        for w in itertools.chain(words(core, full, spec.slow), [] if scribble or not spec.elementwise else shape_words(spec)):
            if scribble and len(w) > 2 and not THOROUGH:
                continue
            res.states += 1
            keep = []
            for j, op in enumerate(w):
                trail = " -> ".join(x.name for x in w[:j + 1]) + (" (results overwritten by the caller)" if scribble else "")
                if not step(op, f, res, trail, None if scribble else keep, scribble):
                    break
            res.traces += 1
            for x, c, tr in keep:
                if not (x.shape == c.shape and np.array_equal(x, c, equal_nan=x.dtype.kind in "fc")):
                    res.viol("history", "a result of %s was changed by a later call in %s" % (tr, " -> ".join(o.name for o in w)), history=tr)
                    break
            if len(res.viols) >= 3:
                return res
    flood(spec, f, res)
    d = settings_diff(s0, settings())
    if d:
        res.viol("history", "calls changed the process-wide %s" % d, history="all words")
    res.samples.append(dict(fn=spec.fn, alphabet=[o.name for o in (core + full)][:12], words=res.states))
    res.info["history_alphabet:" + spec.fn] = len(core) + len(full)
    return res


# ---------------------------------------------------------------------------------- aborts
class Abort(BaseException):
    pass


def _tracer(limit, count):
    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == limit:
                raise Abort()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG) or os.path.realpath(frame.f_code.co_filename).startswith(PKG):
            return local(frame, event, arg) if event == "line" else local
        return None
    return glob


def line_events(f, args):
    c = [0]
    sys.settrace(_tracer(-1, c))
    try:
        f(*args)
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return c[0]


def in_fork(fn, seconds=120):
    """run fn() in a fork of this process: the package keeps whatever state it has now (none, if nothing ran before)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:     # noqa
                out = ("exc", "%s: %s" % (type(e).__name__, e))
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + seconds
    while True:
        if not select.select([r], [], [], max(0.0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return ("exc", "the process did not finish")


def abort_points(n, cap):
    """every line event up to the cap; beyond it the first and last cap/2 events"""
    if n <= cap:
        return range(1, n + 1)
    return list(range(1, cap // 2 + 1)) + list(range(n - cap // 2 + 1, n + 1))


def explore_A(spec):
    res = Res(spec.fn)
    f = spec.impl()
    core, full = operations(spec)
    if not core:
        return res
    victims = [core[0]] + [o for o in core if o.name == "base 0"][:1] + (core[1:2] if THOROUGH else [])
    probes = core[:2] + [o for o in core if o.name.startswith("base")][:1]
    if spec.slow:
        victims, probes = victims[:1], probes[:1]
    cap = (40 if spec.slow else 400) if THOROUGH else (12 if spec.slow else 160)
    s0 = settings()
    # the very first call ever is aborted (state that is set up on first use)
    v = victims[0]
    st, n = in_fork(lambda: line_events(f, v.build()))
    for k in abort_points(n, cap // 4) if st == "ok" else ():
        def first(k=k):
            r = Res(spec.fn)
            sys.settrace(_tracer(k, [0]))
            try:
                f(*v.build())
            except Abort:
                pass
            except Exception:
                pass
            finally:
                sys.settrace(None)
            for pr in probes:
                if not step(pr, f, r, "[first call ever, %s, aborted at line event %d] -> %s" % (v.name, k, pr.name)):
                    break
            return r
        st, r = in_fork(first)
        if st == "ok":
            res.merge(r)
            res.states += 1
            res.traces += 1
            if res.viols:
                return res
    for v in victims:
        n = line_events(f, v.build())
        for k in abort_points(n, cap):
            res.states += 1
            c = [0]
            args = v.build()
            snap = [_cp(a) for a in args]
            sys.settrace(_tracer(k, c))
            try:
                f(*args)
            except Abort:
                pass
            except Exception:
                pass
            finally:
                sys.settrace(None)
            for a, b, p in zip(args, snap, spec.params):
                if not _same(a, b):
                    res.viol("abort", "call aborted after %d lines leaves argument %s modified" % (k, p.name), history="abort %s at line event %d" % (v.name, k))
            for pr in probes:
                if not step(pr, f, res, "[%s aborted at line event %d] -> %s" % (v.name, k, pr.name)):
                    break
            res.traces += 1
            d = settings_diff(s0, settings())
            if d:
                res.viol("abort", "a call aborted after %d lines leaves the process-wide %s changed" % (k, d), history="abort %s at line event %d" % (v.name, k))
            if len(res.viols) >= 3:
                return res
    res.info["abort_points:" + spec.fn] = res.states
    return res


# ---------------------------------------------------------------------------------- cross-function histories
def pair_ops(specs):
    table = []
    for s in specs:
        try:
            core, full = operations(s)
        except Exception:
            continue
        if core:
            table.append((s, s.impl(), core, full))
    return table


def explore_P(specs, lo, hi):
    """every word  g, f, g'  with f from the slice [lo, hi) of the function list and g over all functions"""
    res = Res("pairs[%d:%d]" % (lo, hi))
    table = pair_ops(specs)
    s0 = settings()
    for s1, f1, c1, u1 in table[lo:hi]:
        if s1.slow:
            firsts = c1[:1]
        else:
            firsts = [c1[0], c1[-1]]
        for s2, f2, c2, u2 in table:
            if s2.slow and s1.slow and not THOROUGH:
                continue
            for a in firsts:
                for b in ([c2[0]] if s2.slow else [c2[0], c2[-1]]):
                    res.states += 1
                    tr = "%s[%s] -> %s[%s]" % (s1.fn, a.name, s2.fn, b.name)
                    if not step(a, f1, res, tr):
                        break
                    step(b, f2, res, tr)
                    res.traces += 1
            if len(res.viols) >= 3:
                return res
    d = settings_diff(s0, settings())
    if d:
        res.viol("history", "calls changed the process-wide %s" % d, history="cross-function words")
    return res
