"""Relative mode: what does the implementation itself return for a call, run alone?

C21, C22 and C23 are about *independence* (of history, of form, of schedule), not about formulas.  Their explorers
compare with the reference model; when a value deviates, the deviation counts only if the implementation, called alone
in a process in which no package function has run before, returns something else.  (A wrong formula that is wrong in
every history, form and schedule alike is the business of the function's own property.)

The zygote is forked before the first call of a job; each request is served by a fork of the zygote.
"""
import os
import pickle
import struct

import numpy as np

from .core import Spec

RELATIVE = False
_z = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    os.write(fd, struct.pack("<Q", len(b)))
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _exact(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    return pickle.loads(_exact(fd, struct.unpack("<Q", _exact(fd, 8))[0]))


def start():
    """switch relative mode on for this process and fork the zygote"""
    global RELATIVE, _z
    RELATIVE = True
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid:
        os.close(r1)
        os.close(w2)
        _z = (pid, w1, r2)
        return
    os.close(w1)
    os.close(r2)
    try:
        while True:
            try:
                fn, args = _recv(r1)
            except EOFError:
                os._exit(0)
            a, b = os.pipe()
            p = os.fork()
            if p == 0:
                try:
                    o = Spec.registry[fn].impl()(*args)
                    o = ("ok", [np.array(x) for x in (o if isinstance(o, (tuple, list)) else [o])])
                except Exception as e:
                    o = ("exc", type(e).__name__)
                try:
                    os.close(a)
                    _send(b, o)
                finally:
                    os._exit(0)
            os.close(b)
            try:
                o = _recv(a)
            except EOFError:
                o = ("died", None)
            os.close(a)
            os.waitpid(p, 0)
            _send(w2, o)
    finally:
        os._exit(0)


def stop():
    global _z
    if _z:
        os.close(_z[1])
        os.close(_z[2])
        os.waitpid(_z[0], 0)
        _z = None


def alone(fn, args):
    try:
        pickle.dumps(args)
    except Exception:
        return ("unavailable", None)
    _send(_z[1], (fn, [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]))
    return _recv(_z[2])


def near(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object:
        a = a.astype(float)
    if b.dtype == object:
        b = b.astype(float)
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol) | (a == b) | (np.isnan(a) & np.isnan(b))))


def _rt(spec):
    return 1e-7 if spec.tol else max(spec.rtol, 1e-9)


def same_alone(fn, args, got=None, exc=None):
    """True if the call run alone gives the same outcome (so the deviation does not depend on what is being varied)"""
    if not RELATIVE:
        return False
    o = alone(fn, args)
    if exc is not None:
        return o[0] == "exc" and o[1] == exc
    return o[0] == "ok" and len(o[1]) == len(got) and all(near(x, y, atol=Spec.registry[fn].atol) for x, y in zip(got, o[1]))


def same_scalars(spec, args, subset, got, scalar_form):
    """True if an array call equals the implementation's own element-by-element calls (or, for a scalar form, its own array call)"""
    if not RELATIVE:
        return False
    vals = [np.array(args[i], dtype=float) if i in subset else args[i] for i in range(len(args))]
    single = any(getattr(args[i], "dtype", None) == np.float32 for i in subset)
    rt, at = (3e-3, max(spec.atol, 1e-4)) if single else (_rt(spec), spec.atol)
    if scalar_form:
        a = [np.full(2, float(v)) if i in subset else v for i, v in enumerate(vals)]
        o = alone(spec.fn, a)
        if o[0] != "ok" or len(o[1]) != len(got):
            return False
        return all(x.shape == (2,) and near(x[:1], np.asarray(g).reshape(1), rt, at) and near(x[1:], np.asarray(g).reshape(1), rt, at) if np.asarray(g).size == 1 else False for x, g in zip(o[1], got))
    cols = np.broadcast_arrays(*[vals[i] for i in subset])
    shape = cols[0].shape
    if any(np.asarray(g).shape != shape for g in got):
        return False
    flat = [c.reshape(-1) for c in cols]
    gf = [np.asarray(g).reshape(-1) for g in got]
    for k in range(min(flat[0].size, 600)):
        a = list(vals)
        for i, c in zip(subset, flat):
            a[i] = float(c[k])
        o = alone(spec.fn, a)
        if o[0] != "ok" or len(o[1]) != len(got):
            return False
        if not all(x.size == 1 and near(x.reshape(1), g[k:k + 1], rt, at) for x, g in zip(o[1], gf)):
            return False
    return True


def scalar_works(spec, args, subset):
    """does the implementation accept the very elements one at a time?"""
    vals = [np.array(args[i], dtype=float) if i in subset else args[i] for i in range(len(args))]
    cols = [c.reshape(-1) for c in np.broadcast_arrays(*[vals[i] for i in subset])]
    for k in range(min(cols[0].size, 50)):
        a = list(vals)
        for i, c in zip(subset, cols):
            a[i] = float(c[k])
        if alone(spec.fn, a)[0] != "ok":
            return False
    return True


def array_subset(spec):
    return tuple(i for i, p in enumerate(spec.params) if p.arr and p.kind == "num")


def bulk_elements(spec, args, got, bad):
    """relative verdict for a deviating array call: index of an element whose scalar call differs, or None"""
    sub = array_subset(spec)
    for k in np.nonzero(bad)[0][:100]:
        a = [float(v[k]) if i in sub else v for i, v in enumerate(args)]
        o = alone(spec.fn, a)
        if o[0] != "ok" or len(o[1]) != len(got) or not all(x.size == 1 and near(x.reshape(1), g[k:k + 1], _rt(spec), spec.atol) for x, g in zip(o[1], got)):
            return int(k)
    return None


def array_works(spec, args):
    sub = array_subset(spec)
    return alone(spec.fn, [np.full(2, float(v)) if i in sub else v for i, v in enumerate(args)])[0] == "ok"
