"""Bounded-exhaustive explorers over the real rockphypy code.

A *Spec* binds one public function to: an argument alphabet (the finite space that is enumerated), a domain
predicate, and an independent reference model.  The explorers L (lattice), S (forms), H (histories), A (aborts) and
T (threads) enumerate a finite space completely and compare every element with the reference model.
Nothing is sampled; there is no randomness anywhere.
"""
import ast
import inspect
import itertools
import math
import os
import sys
import textwrap
import warnings

import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import rockphypy  # noqa: E402

assert os.path.realpath(rockphypy.__file__).startswith(os.path.realpath(REPO) + os.sep), rockphypy.__file__
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


# ----------------------------------------------------------------------------- parameters and specs
class Param:
    def __init__(self, name, vals, lo=None, hi=None, kind="num", arr=True, log=False, lits=True, ints=None, elem=None):
        self.elem = elem          # structured arguments: (lo, hi, values) of a single element
        self.name, self.vals, self.kind, self.arr, self.log, self.lits = name, list(vals), kind, arr, log, lits
        if kind == "num":
            self.lo = min(vals) if lo is None else lo
            self.hi = max(vals) if hi is None else hi
        self.ints = ints          # integer values usable for integer-typed arguments (None: derive)

    def int_values(self):
        if self.ints is not None:
            return list(self.ints)
        a, b = math.ceil(self.lo), math.floor(self.hi)
        if b < a:
            return []
        if b - a <= 6:
            return list(range(a, b + 1))
        return sorted({int(round(a + (b - a) * k / 6)) for k in range(7)})


def N(name, vals, lo=None, hi=None, **k):
    """numeric argument that may be a scalar or an array"""
    return Param(name, vals, lo, hi, "num", True, **k)


def NS(name, vals, lo=None, hi=None, **k):
    """numeric argument, scalar only"""
    return Param(name, vals, lo, hi, "num", False, **k)


def C(name, vals):
    """categorical argument (mode strings, flags, enumerations)"""
    return Param(name, vals, kind="cat", arr=False)


def O(name, vals, elem=None):
    """structured argument (list / vector / matrix): the alphabet holds complete values; elem=(lo, hi, values): every
    single element (and all of them together) also takes these values, the literals of the source and a dense grid"""
    return Param(name, vals, kind="obj", arr=False, elem=elem)


ND = ["2d", "2dF", "2dT", "row", "column", "3d", "bcast"]


def no(names, forms):
    """noforms entries: every form in `forms` is outside the supported forms of each parameter in `names`"""
    names = names.split() if isinstance(names, str) else names
    forms = forms.split() if isinstance(forms, str) else forms
    return {"%s:%s" % (n, f) for n in names for f in forms}


class Spec:
    registry = {}

    def __init__(self, fn, props, params, ref, where=None, bases=None, rtol=1e-9, atol=0.0, elementwise=True,
                 noforms=(), nan_sig=False, known=(), scalar_shape=None, t_quick=2, t_thorough=3, call=None,
                 max_scalar=None, check=None, warn=None, notes="", slow=False, forms_atol=None, grid=False, sweep_n=None,
                 thread=True, lit_ok=True, tol=None, lists=(), bulk=1.0):
        self.fn, self.params, self.ref, self.where = fn, params, ref, where
        self.props = [props] if isinstance(props, str) else list(props)
        self.elementwise, self.rtol, self.atol = elementwise, rtol, atol
        self.noforms, self.nan_sig, self.known = noforms, nan_sig, list(known)
        self.scalar_shape, self.t_quick, self.t_thorough = scalar_shape, t_quick, t_thorough
        self.call_, self.max_scalar, self.check, self.warn = call, max_scalar, check, warn
        self.slow, self.grid, self.sweep_n, self.thread, self.lit_ok = slow, grid, sweep_n, thread, lit_ok
        self.bases = bases
        self.lists = set(lists)   # parameters documented to accept plain lists
        self.families = None      # (n, variant) -> complete argument tuples built from n elements (sizes of structured arguments)
        self.bulk = bulk          # fraction of the dense array sweeps (functions that loop per element)
        self.tol = tol            # optional: extra absolute tolerance per output (conditioning)
        self.names = [p.name for p in params]
        self.index = {n: i for i, n in enumerate(self.names)}
        assert fn not in Spec.registry, fn
        Spec.registry[fn] = self

    # -- resolve the implementation freshly from the imported package
    def impl(self):
        if self.call_ is not None:
            return self.call_
        cls, name = self.fn.split("#")[0].split(".")
        return getattr(getattr(rockphypy, cls), name)

    def raw(self):
        """the package function itself (for literal extraction), even when calls go through a wrapper"""
        cls, name = self.fn.split("#")[0].split(".")
        return getattr(getattr(rockphypy, cls), name)

    def base_points(self):
        if self.bases is None:
            k = 3
            out = []
            for j in range(k):
                out.append(tuple(p.vals[(j + (i * j) % 2) % len(p.vals)] if j else p.vals[0] for i, p in enumerate(self.params)))
            return out
        return [tuple(b) for b in self.bases]

    def ok(self, pts):
        """domain mask for a list of points"""
        if self.where is None:
            return np.ones(len(pts), bool)
        cols = columns(self, pts)
        m = self.where(*cols)
        return np.broadcast_to(np.asarray(m, bool), (len(pts),)).copy()


def columns(spec, pts):
    cols = []
    for i, p in enumerate(spec.params):
        c = [q[i] for q in pts]
        if p.kind == "num":
            cols.append(np.array(c, dtype=float))
        else:
            o = np.empty(len(c), dtype=object)
            for j, v in enumerate(c):
                o[j] = v
            cols.append(o)
    return cols


# ----------------------------------------------------------------------------- literals of the current source
def _functions_of_class(cls):
    return {n: f.__func__ if isinstance(f, staticmethod) else f for n, f in vars(cls).items()
            if isinstance(f, (staticmethod,)) or inspect.isfunction(f)}


_LIT_CACHE = {}


_OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
        ast.FloorDiv: lambda a, b: a // b, ast.LShift: lambda a, b: a << b, ast.Pow: lambda a, b: a ** b if abs(b) <= 64 else None}


def _fold(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _fold(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp) and type(node.op) in _OPS:
        a, b = _fold(node.left), _fold(node.right)
        return None if a is None or b is None else _OPS[type(node.op)](a, b)
    return None


def _constant(node):
    """value of an expression of numbers only"""
    try:
        v = _fold(node)
        return float(v) if v is not None and abs(v) < 1e30 else None
    except Exception:
        return None


def _numbers(v):
    """the numbers of a module- or class-level constant (a number or a small container of numbers)"""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return {float(v), -float(v)}
    if isinstance(v, np.ndarray) and v.dtype.kind in "if" and v.size <= 60:
        v = v.ravel().tolist()
    if isinstance(v, dict):
        v = [x for kv in v.items() for x in kv]
    if isinstance(v, (list, tuple, set, frozenset)) and len(v) <= 120:
        out = set()
        for x in v:
            if isinstance(x, (int, float)) and not isinstance(x, bool) and np.isfinite(x):
                out.add(float(x))
        return out
    return set()


def source_literals(func, depth=3, seen=None):
    """numeric literals in the source of `func` and of the package functions it can reach (by name)"""
    seen = set() if seen is None else seen
    try:
        func = inspect.unwrap(func)
        key = (func.__module__, func.__qualname__)
    except Exception:
        return set()
    if key in seen or depth < 0:
        return set()
    seen.add(key)
    if key not in _LIT_CACHE:
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(func)))
        except Exception:
            _LIT_CACHE[key] = (set(), set())
        else:
            lits, names = set(), set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                    lits.add(float(node.value))
                    lits.add(-float(node.value))
                elif isinstance(node, ast.BinOp):             # 1 << 17, 2**20, 4/3: constant expressions
                    v = _constant(node)
                    if v is not None:
                        lits |= {v, -v}
                elif isinstance(node, ast.Attribute):
                    names.add(node.attr)
                elif isinstance(node, ast.Name):
                    names.add(node.id)
            _LIT_CACHE[key] = (lits, names)
    lits, names = _LIT_CACHE[key]
    out = set(lits)
    mod = sys.modules.get(func.__module__)
    pool = {}
    if mod is not None:
        for n, v in vars(mod).items():
            if inspect.isfunction(v) and getattr(v, "__module__", "").startswith("rockphypy"):
                pool.setdefault(n, v)
            elif n in names and not n.startswith("__"):
                out |= _numbers(v)
            elif inspect.isclass(v) and getattr(v, "__module__", "").startswith("rockphypy"):
                for n2, f2 in _functions_of_class(v).items():
                    pool.setdefault(n2, f2)
                for n2, f2 in vars(v).items():
                    if n2 in names and not n2.startswith("__"):
                        out |= _numbers(f2)
    for n in names:
        if n in pool:
            out |= source_literals(pool[n], depth - 1, seen)
    return out


def literal_values(spec, p, cap, lo=None, hi=None):
    if not (p.lits and spec.lit_ok):
        return []
    if lo is not None:
        p = Param(p.name, [lo], lo, hi)
    try:
        lits = source_literals(spec.raw())
    except Exception:
        return []
    span = p.hi - p.lo
    inside = sorted({c for c in lits if p.lo <= c <= p.hi} | {c / 100 for c in lits if p.lo <= c / 100 <= p.hi and p.hi <= 1.0})
    if p.hi >= 45 and any(k in p.name.lower() for k in ("theta", "azi", "angle", "phi1", "ray", "the", "psi", "i_", "deg", "ang")):
        # an angle in degrees: the literals may be radians
        d = {float(np.rad2deg(c)) for c in lits if c > 0}
        inside = sorted(set(inside) | {c for c in d if p.lo <= c <= p.hi})
    inside = [c for c in inside if not (p.lo <= 0 <= p.hi and abs(c) < 1e-9 * span and c != 0)]
    if len(inside) > cap:          # keep an even spread, deterministic
        inside = [inside[int(round(k * (len(inside) - 1) / (cap - 1)))] for k in range(cap)]
    return inside


# ----------------------------------------------------------------------------- lattice generation
def _near(p, v):
    d = max(abs(v), abs(p.hi - p.lo) * 1e-3) * 1e-7
    return [x for x in (v - d, v + d) if p.lo <= x <= p.hi]


def _around(p, v):
    """the surroundings of v at several scales (for thresholds that are not literals themselves)"""
    out = []
    for r in (1e-9, 1e-5, 1e-3, 1e-2, 0.07):
        d = max(abs(v), abs(p.hi - p.lo) * 1e-3) * r
        out += [x for x in (v - d, v + d) if p.lo <= x <= p.hi]
    return out


def element_values(spec, p, cap):
    if p.elem is None:
        return []
    lo, hi, vals = p.elem
    e = Param(p.name, [lo], lo, hi)
    out = list(vals)
    for c in literal_values(spec, p, cap, lo, hi):
        out += [c] + _near(e, c)
    return sorted(set(out))


def with_element(v, k, x):
    """copy of the list / tuple / array v with element k (None: every element) replaced by x"""
    if isinstance(v, np.ndarray):
        w = v.astype(float)
        if k is None:
            w[...] = x
        else:
            w.reshape(-1)[k] = x
        return w
    w = [x] * len(v) if k is None else [x if i == k else y for i, y in enumerate(v)]
    return type(v)(w)


def positions(v):
    n = v.size if isinstance(v, np.ndarray) else len(v)
    return list(range(n)) + [None]


def alphabet(spec, p, lit_cap):
    if p.kind != "num":
        return list(p.vals), []
    extra = []
    for c in literal_values(spec, p, lit_cap):
        extra += [c] + _near(p, c)
    core = list(p.vals)
    seen = set(core)
    extra = [x for x in extra if not (x in seen or seen.add(x))]
    return core, extra


def sweep_values(p, n):
    if p.log and p.lo > 0:
        v = np.exp(np.linspace(np.log(p.lo), np.log(p.hi), n))
        v[0], v[-1] = p.lo, p.hi
        return v
    return np.linspace(p.lo, p.hi, n)


def lattice_points(spec, t, lit_cap=10, full_cap=6000, litpair=True, around=True):
    """complete list of lattice points (tuples): the bounded space that is enumerated"""
    alph = [alphabet(spec, p, lit_cap) for p in spec.params]
    sizes = [len(a[0]) for a in alph]
    seen, pts = set(), []

    def key(q):
        return tuple(x if isinstance(x, (int, float, str, bool, type(None))) else id(x) for x in q)

    def add(q):
        k = key(q)
        if k not in seen:
            seen.add(k)
            pts.append(q)

    for b in spec.base_points():
        add(b)
    full = 1
    for s in sizes:
        full *= s
    if full <= full_cap:
        for q in itertools.product(*[a[0] for a in alph]):
            add(q)
    bases = spec.base_points()
    # categorical arguments are always combined completely with every base
    cats = [i for i, p in enumerate(spec.params) if p.kind == "cat"]
    nums = [i for i, p in enumerate(spec.params) if p.kind != "cat"]
    catprod = list(itertools.product(*[spec.params[i].vals for i in cats])) or [()]
    for b in bases:
        for cv in catprod:
            q0 = list(b)
            for i, v in zip(cats, cv):
                q0[i] = v
            add(tuple(q0))
            for r in range(1, t + 1):
                for combo in itertools.combinations(nums, r):
                    if r == 1:
                        choice = [alph[i][0] + alph[i][1] for i in combo]
                    else:
                        choice = [alph[i][0] for i in combo]
                    for vs in itertools.product(*choice):
                        q = list(q0)
                        for i, v in zip(combo, vs):
                            q[i] = v
                        add(tuple(q))
            # one literal-derived value combined with one deviation of another argument
            for i in nums if litpair else ():
                for v in alph[i][1]:
                    for j in nums:
                        if j == i:
                            continue
                        for w in alph[j][0]:
                            q = list(q0)
                            q[i], q[j] = v, w
                            add(tuple(q))
            # coinciding arguments: argument i takes the very value of argument j
            for i in nums:
                for j in nums:
                    if i != j and spec.params[i].kind == "num" and spec.params[j].kind == "num":
                        for v in [q0[j]] + (_around(spec.params[i], q0[j]) if around else []):
                            if spec.params[i].lo <= v <= spec.params[i].hi:
                                q = list(q0)
                                q[i] = v
                                add(tuple(q))
            # surroundings of the literals and of the base values
            if around:
                for i in nums:
                    p = spec.params[i]
                    if p.kind == "num":
                        for v in literal_values(spec, p, lit_cap) + [q0[i]]:
                            for x in _around(p, v):
                                q = list(q0)
                                q[i] = x
                                add(tuple(q))
            # element deviations of the structured arguments
            for i in nums:
                p = spec.params[i]
                if p.elem is not None:
                    for v0 in [q0[i]] + list(p.vals)[::3]:
                        for k in positions(v0):
                            for x in element_values(spec, p, lit_cap):
                                q = list(q0)
                                q[i] = with_element(v0, k, x)
                                add(tuple(q))
    return pts


VARIANTS = ("mix", "up", "down", "const", "skew", "last")


def series(lo, hi, n, j, variant):
    """n deterministic values in [lo, hi]; j distinguishes the arguments of one tuple"""
    i = np.arange(n)
    if variant == "const":
        u = np.full(n, (0.3 + 0.17 * j) % 1)
    elif variant in ("up", "down"):
        u = (i + 0.5) / n
        u = u[::-1] if variant == "down" else u
    else:
        u = ((i + 1) * (0.6180339887498949 + 0.1 * j) + 0.13 * j) % 1.0
        if variant == "skew":
            u = u ** 6
        elif variant == "last":
            u = np.where(i == n - 1, 0.97, 0.05 + 0.1 * u)
    return lo + (hi - lo) * u


def literal_sizes(spec, top, low=8):
    """lengths at, just above and at twice the integer literals of the source (chunk sizes, size switches)"""
    out = set()
    for c in source_literals(spec.raw()):
        if c == int(c) and low <= c <= top:
            out |= {n for n in (int(c) - 1, int(c), int(c) + 1, 2 * int(c) + 1) if n <= 2 * top} if c <= 140000 else {int(c) + 1}
    return out


SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 33, 50, 51, 60, 64, 65, 100, 101, 120, 128, 129, 200, 256, 257, 500, 501, 1000, 1001)


def family_points(spec):
    if spec.families is None:
        return []
    top = spec.families_top
    sizes = sorted({n for n in SIZES if n <= top} | literal_sizes(spec, top, 2)) if spec.lit_ok else SIZES
    return [q for n in sizes for v in VARIANTS for q in spec.families(n, v)]


def sweep_points(spec, n1):
    """dense one-argument sweeps through every base (complete grids)"""
    pts = []
    for b in spec.base_points():
        for i, p in enumerate(spec.params):
            if p.elem is not None:
                lo, hi, _ = p.elem
                e = Param(p.name, [lo], lo, hi, log=lo > 0)
                for k in positions(b[i]):
                    for x in sweep_values(e, min(n1, 41)):
                        q = list(b)
                        q[i] = with_element(b[i], k, float(x))
                        pts.append(tuple(q))
            if p.kind != "num":
                continue
            for v in sweep_values(p, n1):
                q = list(b)
                q[i] = float(v)
                pts.append(tuple(q))
    return pts


def grid2_points(spec, n2):
    """two-argument grids through the bases, array evaluation only"""
    pts = []
    nums = [i for i, p in enumerate(spec.params) if p.kind == "num"]
    for b in spec.base_points():
        for i, j in itertools.combinations(nums, 2):
            vi, vj = sweep_values(spec.params[i], n2), sweep_values(spec.params[j], n2)
            for x in vi:
                for y in vj:
                    q = list(b)
                    q[i], q[j] = float(x), float(y)
                    pts.append(tuple(q))
    return pts


# ----------------------------------------------------------------------------- comparison
class Viol(Exception):
    pass


def outs(o):
    return [np.asarray(x) for x in o] if isinstance(o, (tuple, list)) else [np.asarray(o)]


def mism(spec, got, want, rtol=None, atol=None, extra=0.0):
    """boolean array: where got differs from want"""
    rtol = spec.rtol if rtol is None else rtol
    atol = spec.atol if atol is None else atol
    g, w = np.asarray(got), np.asarray(want)
    if g.dtype == object:
        g = g.astype(float)
    with np.errstate(all="ignore"):
        fin = np.isfinite(w)
        bad = fin & ~(np.abs(g - w) <= rtol * np.abs(w) + atol + extra)
        bad |= fin & ~np.isfinite(g)
        if spec.nan_sig:
            bad |= np.isnan(w) & ~np.isnan(g)
    return bad


def describe(spec, q):
    def r(x):
        if isinstance(x, np.ndarray):
            return x.tolist()
        return x
    return {p.name: r(v) for p, v in zip(spec.params, q)}


def scaled(fn, tag, **factors):
    """the same function in another consistent unit system (for instance SI): parameters multiplied by their factors"""
    s = Spec.registry[fn]
    fac = [factors.get(n, 1.0) for n in s.names]
    ps = []
    for p, f in zip(s.params, fac):
        if p.kind == "num" and f != 1.0:
            ps.append(Param(p.name, [v * f for v in p.vals], p.lo * f, p.hi * f, "num", p.arr, log=p.log, lits=p.lits))
        else:
            ps.append(p)
    w = s.where
    return Spec(fn + "#" + tag, s.props, ps, s.ref, where=None if w is None else (lambda *a: w(*[x if f == 1.0 else x / f for x, f in zip(a, fac)])),
                bases=[tuple(v * f if f != 1.0 else v for v, f in zip(b, fac)) for b in s.base_points()], rtol=s.rtol, atol=s.atol, elementwise=s.elementwise,
                noforms=set(s.noforms) | {"npi64", "int64", "pyint", "int32"}, scalar_shape=s.scalar_shape, t_quick=1, t_thorough=2, tol=s.tol, sweep_n=21, bulk=0.25, grid=s.grid, known=s.known, thread=False, call=s.call_, max_scalar=s.max_scalar)
