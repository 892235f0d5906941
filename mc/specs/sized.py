"""Structured arguments of every size up to a bound (layer stacks, point lists, grids): complete families of argument
tuples.  A family is enumerated for each size of core.SIZES and for the sizes suggested by the integer literals of the
current source, in six arrangements (scattered, increasing, decreasing, constant, skewed, deviating last element)."""
import numpy as np

from ..core import Spec, series as s
from .aniso import HTIS


def fam(fn, top, f):
    sp = Spec.registry[fn]
    sp.families, sp.families_top = f, top


def _norm(x):
    return x / x.sum()


fam("Anisotropy.Backus", 1001, lambda n, v: [(s(0.1, 5.0, n, 0, v), s(3.0, 25.0, n, 1, v), s(1.5, 20.0, n, 2, v)), (_norm(s(0.5, 3.0, n, 3, v)), s(3.0, 25.0, n, 2, "mix"), s(1.5, 20.0, n, 1, "mix")),
                                             (s(0.1, 5.0, n, 0, "mix").tolist(), s(3.0, 25.0, n, 1, v).tolist(), s(1.5, 20.0, n, 2, "mix").tolist()), (s(0.1, 5.0, n, 0, v), s(3.0, 25.0, n, 1, v), np.full(n, 6.0))])
fam("Anisotropy.Backus_log", 1001, lambda n, v: [(s(3.0, 5.0, n, 0, v), s(1.2, 2.1, n, 1, v), s(2.0, 2.7, n, 2, v), 1000 + np.cumsum(s(0.1, 4.0, n + 1, 3, v))), (s(3.0, 5.0, n, 1, "mix"), s(1.2, 2.1, n, 0, "mix"), s(2.0, 2.7, n, 2, "mix"), np.arange(n + 1) * 0.5),
                                                 (s(3.0, 5.0, n, 0, v), s(1.2, 2.1, n, 1, v), np.full(n, 2.4), np.linspace(2000.0, 2000.0 + n, n + 1))])


def _frac(m, n, j, v):
    f = np.array([s(0.05, 1.0, n, j + i, v) for i in range(m)]).T
    return f / f.sum(1)[:, None]


def _vrh(n, v):
    out = [(_norm(s(0.05, 1.0, n, 0, v)), s(0.02, 80.0, n, 1, v)), (_norm(s(0.05, 1.0, n, 0, v)).tolist(), s(2.0, 80.0, n, 2, "mix").tolist())]
    out += [(_frac(m, n, 0, v), np.array([37.0, 21.0, 2.25, 76.8, 0.5][:m])) for m in (2, 3, 5)]
    return out


fam("EM.VRH", 1001, _vrh)
_TH = [np.array([0.0, 10.0, 30.0]), 20.0, np.arange(0.0, 41.0)]


def _ar(n, v):
    L = (s(2500.0, 4200.0, n, 0, v), s(2600.0, 4400.0, n, 1, v), s(1000.0, 2200.0, n, 2, v), s(900.0, 2300.0, n, 3, v), s(2050.0, 2650.0, n, 4, v), s(2000.0, 2700.0, n, 5, v))
    same = (L[0], L[0].copy(), L[2], L[2].copy(), L[4], L[4].copy())
    w = tuple(np.concatenate([x[1:], x[:1]]) for x in (L[0], L[2], L[4]))
    one = tuple(np.array([3000.0, 3500.0, 1500.0, 1900.0, 2300.0, 2450.0])[i:i + 1] for i in range(6))
    return [(_TH[0],) + L, (_TH[1],) + L, (_TH[0],) + same, (_TH[0], L[0], w[0], L[2], w[1], L[4], w[2]), (s(0.0, 50.0, n, 1, v),) + one, (s(0.0, 50.0, n, 1, v),) + tuple(x[:4] for x in L)]


fam("AVO.Aki_Richards#layers", 1001, _ar)


def _ei(n, v, tail):
    a, b, c = s(2500.0, 4200.0, n, 0, v), s(1000.0, 1750.0, n, 1, v), s(2050.0, 2650.0, n, 2, v)
    one = (np.array([3000.0]), np.array([1500.0]), np.array([2300.0]))
    return [(a, b, c, t) + x for t in _TH for x in tail] + [one + (s(0.0, 45.0, n, 0, v),) + x for x in tail] + [(a[:3], b[:3], c[:3], s(0.0, 45.0, n, 0, v)) + x for x in tail]


fam("AVO.EI_ref#layers", 1001, lambda n, v: _ei(n, v, [(0.5, True), (0.55, False)]))
fam("AVO.EI_ref#default", 1001, lambda n, v: _ei(n, v, [(0.5,)]))
fam("AVO.AVO_HTI", 1001, lambda n, v: [(2.4, 2.5, HTIS[0], HTIS[1], s(0.0, 50.0, n, 0, v), np.array([0.0, 30.0, 90.0])), (2.2, 2.6, HTIS[3], HTIS[4], np.array([5.0, 25.0]), s(0.0, 360.0, n, 1, v)),
                                       (2.2, 2.6, HTIS[1], HTIS[2], s(0.0, 50.0, n, 0, v)[:120], s(-90.0, 270.0, n, 1, v)[:120]), (2.4, 2.5, HTIS[0], HTIS[1], 20.0, s(0.0, 360.0, n, 2, v)), (2.4, 2.5, HTIS[0], HTIS[1], s(0.0, 50.0, n, 0, v), 40.0)])


def _pqv(n, v):
    ki, gi = s(0.01, 60.0, n, 0, v), s(0.0, 45.0, n, 1, v)
    al = s(0.005, 0.98, n, 2, v)
    mixed = np.where(np.arange(n) % 3 == 1, 1.0, al)
    return [(37.0, 44.0, ki, gi, al), (21.0, 7.0, ki, gi, mixed), (12.0, 9.0, ki, np.zeros(n), np.ones(n)), (37.0, 44.0, np.full(n, 2.25), np.zeros(n), mixed[::-1].copy())]


fam("EM.PQ_vectorize", 129, _pqv)
fam("EM.Swiss_cheese#grid", 1001, lambda n, v: [(s(5.0, 80.0, n, 0, v), s(5.0, 45.0, n, 1, v), np.array([0.0, 0.1, 0.3])), (np.array([37.0, 21.0]), np.array([44.0, 7.0]), s(0.0, 0.6, n, 2, v)), (s(5.0, 80.0, n, 0, v)[:100], s(5.0, 45.0, n, 1, v)[:100], s(0.0, 0.6, n, 2, v)[:100])])


def _nrm(n, v):
    d = s(0.0, 3.0, n, 0, v)
    return [(d,), (d.reshape(-1, 1),), (d[None, :],), (np.outer(d[:60], s(0.1, 2.0, min(n, 60), 1, "mix")),), (np.outer(d[:64], d[:64]) + 1e-3,), (d * 1e-9 + 1e-12,), (d * 1e6 + 1.0,)]


Spec.registry["QI.normalize"].where = lambda c: np.array([np.max(x) > 0 for x in c])
fam("QI.normalize", 257, _nrm)


def _bsc(n, v):
    if n > 8 or n < 2 or v not in ("mix", "up", "const"):
        return []
    x = _norm(np.concatenate([[3.0], s(0.1, 1.0, n - 1, 0, v)]))
    return [(np.concatenate([[37.0], s(2.0, 40.0, n - 1, 1, v)]), np.concatenate([[44.0], s(0.0, 20.0, n - 1, 2, v)]), x, np.concatenate([[1.0], s(0.05, 0.95, n - 1, 3, v)]))]


fam("EM.Berryman_sc", 8, _bsc)
fam("EM.Berryman_func", 33, lambda n, v: [((30.0, 35.0), s(0.5, 60.0, n, 1, v), s(0.0, 45.0, n, 2, v), _norm(s(0.1, 1.0, n, 0, v)), s(0.05, 0.98, n, 3, v)), ((12.0, 9.0), s(0.5, 60.0, n, 1, v), s(0.0, 45.0, n, 2, v), _norm(s(0.1, 1.0, n, 0, v)), np.ones(n))])
