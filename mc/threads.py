"""Explorer T: all two-thread interleavings of source-line steps inside the package, up to a preemption bound.

Both calls run in real threads under a deterministic scheduler: a trace function stops each thread before every source
line of the package and only the scheduler's choice may continue.  With preemption bound 2 a schedule is
  X runs k lines | Y runs j lines (or to its end) | X runs to its end | Y runs to its end
for every k, j and both choices of X; bound 1 is the sub-family in which Y runs to its end.
"""
import os
import sys
import threading
import time

import numpy as np

from .core import THOROUGH, describe
from .explore import Res, compare, outs
from . import pristine
from .history import PKG, _cp, _same, in_fork, line_events, operations, settings, settings_diff


class Sched:
    """two threads, segments = [(thread, number of line steps or None for completion), ...]"""

    def __init__(self, segments):
        self.segments = segments
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.fin = threading.Event()
        self.pos = -1
        self.left = None
        self.free = False                  # the running thread waits for the paused one (a lock): run both to the end
        self.steps = 0
        self.tid = [None, None]

    def start(self):
        self._next()

    def _next(self):
        """hand control to the next segment whose thread is still alive"""
        while True:
            self.pos += 1
            if self.pos >= len(self.segments):
                for t in (0, 1):
                    if not self.done[t]:
                        self.cur = t
                        self.left = None
                        self.go[t].release()
                        return
                self.fin.set()
                return
            t, n = self.segments[self.pos]
            if self.done[t]:
                continue
            self.cur = t
            self.left = n
            self.go[t].release()
            return

    def point(self, t):
        self.steps += 1
        if self.free or self.left is None:
            return
        if self.left == 0:
            self._next()
            self.go[t].acquire()
            if self.left is not None and not self.free:
                self.left -= 1
            return
        self.left -= 1

    def finish(self, t):
        self.done[t] = True
        self.steps += 1
        if self.free:
            if all(self.done):
                self.fin.set()
            return
        self._next()

    def blocked(self):
        """the thread whose turn it is makes no progress because it waits for something the paused thread holds"""
        try:
            with open("/proc/self/task/%d/stat" % self.tid[self.cur]) as f:
                return f.read().rsplit(")", 1)[1].split()[0] in "SD"
        except (OSError, TypeError):
            return False

    def release(self):
        self.free = True
        self.left = None
        for t in (0, 1):
            self.go[t].release()


_KNOWN = {}


def _inpkg(fn):
    r = _KNOWN.get(fn)
    if r is None:
        r = _KNOWN[fn] = os.path.realpath(fn).startswith(PKG)
    return r


def run_two(calls, segments):
    sch = Sched(segments)
    result = [None, None]

    def body(t, f, args):
        def local(frame, event, arg):
            if event == "line":
                sch.point(t)
            return local

        def glob(frame, event, arg):
            return local if _inpkg(frame.f_code.co_filename) else None
        sch.tid[t] = threading.get_native_id()
        sch.go[t].acquire()
        sys.settrace(glob)
        try:
            result[t] = ("ok", f(*args))
        except BaseException as e:
            result[t] = ("exc", e)
        finally:
            sys.settrace(None)
            sch.finish(t)
    ths = [threading.Thread(target=body, args=(t,) + c, daemon=True) for t, c in enumerate(calls)]
    for t in ths:
        t.start()
    sch.start()
    ok, still, seen, end = False, 0, -1, time.time() + 60
    while not ok and time.time() < end:
        ok = sch.fin.wait(0.03)
        if ok or sch.free:
            continue
        still = still + 1 if sch.steps == seen and sch.blocked() else 0
        seen = sch.steps
        if still >= 4:
            sch.release()
    for t in ths:
        t.join(5 if ok else 0.1)
    return result if ok else None


def points(n, cap):
    if n <= cap:
        return list(range(0, n + 1))
    return list(range(0, cap // 2)) + list(range(n - cap // 2, n + 1))


def check_pair(spec_ops, res, label, pb2, cap1, cap2):
    """spec_ops: [(spec, impl, op), (spec, impl, op)]"""
    n = [line_events(f, op.build()) for s, f, op in spec_ops]
    sched = []
    for x, y in ((0, 1), (1, 0)):
        for k in points(n[x], cap1):
            sched.append([(x, k), (y, None), (x, None)])
        if pb2:
            for k in points(n[x], cap2):
                for j in points(n[y], cap2)[1:-1]:
                    sched.append([(x, k), (y, j), (x, None), (y, None)])
    return all(run_schedule(spec_ops, seg, res, label) for seg in sched)


def run_schedule(spec_ops, seg, res, label):
    res.states += 1
    calls, snaps, argl = [], [], []
    shared = spec_ops[0][2] is spec_ops[1][2]
    a0 = spec_ops[0][2].build()
    a1 = a0 if shared else spec_ops[1][2].build()
    for (s, f, op), a in zip(spec_ops, (a0, a1)):
        calls.append((f, a))
        argl.append(a)
        snaps.append([_cp(v) for v in a])
    out = run_two(calls, seg)
    name = " | ".join("%s %s" % ("XY"[t], "to its end" if m is None else "%d lines" % m) for t, m in seg)
    if out is None:
        res.viol("schedule", "%s: schedule %s does not terminate" % (label, name), schedule=seg)
        return False
    res.traces += 1
    for (s, f, op), r, a, b in zip(spec_ops, out, argl, snaps):
        res.transitions += 1
        if r[0] == "exc":
            if pristine.same_alone(s.fn, b, exc=type(r[1]).__name__):
                continue
            res.viol("schedule", "%s: schedule %s: %s raises %s: %s" % (label, name, s.fn, type(r[1]).__name__, r[1]), schedule=seg)
            return False
        m = compare(s, outs(r[1]), op.want, res, extra=op.ext, args=b)
        if m and not pristine.same_alone(s.fn, b, got=outs(r[1])):
            res.viol("schedule", "%s: schedule %s: %s %s" % (label, name, s.fn, m[0]), schedule=seg, point=describe(s, b))
            return False
        for u, v, p in zip(a, b, s.params):
            if not _same(u, v):
                res.viol("schedule", "%s: schedule %s: argument %s modified" % (label, name, p.name), schedule=seg)
                return False
    return True


def cold(spec, f, a, b, res):
    """schedules in which the two calls are the first calls of the process (state that is set up on first use)"""
    st, n = in_fork(lambda: line_events(f, a.build()))
    if st != "ok":
        return
    cap = 8 if spec.slow else (120 if THOROUGH else 30)
    pts = points(n, cap)
    inner = points(n, cap // 4)[1:-1]
    scheds = [[(0, k), (1, None), (0, None)] for k in pts] + [[(0, k), (1, j), (0, None), (1, None)] for k in (pts if THOROUGH else inner) for j in inner]
    for seg in scheds:
        for y in (a, b):
            def one():
                r = Res(spec.fn)
                run_schedule([(spec, f, a), (spec, f, y)], seg, r, "first calls ever, X=%s[%s] Y=%s[%s]" % (spec.fn, a.name, spec.fn, y.name))
                return r
            st, r = in_fork(one)
            if st == "ok":
                res.merge(r)
                if res.viols:
                    return


def explore_T(spec):
    res = Res(spec.fn)
    f = spec.impl()
    core, full = operations(spec)
    if not core:
        return res
    s0 = settings()
    a, b = core[0], core[min(1, len(core) - 1)]
    cold(spec, f, a, b, res)
    if res.viols:
        return res
    base = [o for o in core if o.name == "base 0"][:1] or [a]
    other = full[-1] if full else b
    pairs = [(a, b), (a, a), (base[0], other)]
    cap1, cap2 = (300, 60) if THOROUGH else (80, 14)
    if spec.slow:
        pairs, cap1, cap2 = pairs[:1], (40 if THOROUGH else 12), (10 if THOROUGH else 4)
    for i, (x, y) in enumerate(pairs):
        if not check_pair([(spec, f, x), (spec, f, y)], res, "X=%s[%s] Y=%s[%s]" % (spec.fn, x.name, spec.fn, y.name), i == 0 or THOROUGH, cap1, cap2):
            return res
    d = settings_diff(s0, settings())
    if d:
        res.viol("schedule", "concurrent calls changed the process-wide %s" % d, schedule="all")
    res.info["schedules:" + spec.fn] = res.states
    res.samples.append(dict(fn=spec.fn, schedules=res.states))
    return res


def explore_TX(specs, lo, hi):
    """schedules of calls of two different functions (bound 1)"""
    from .history import pair_ops
    res = Res("threads-cross[%d:%d]" % (lo, hi))
    table = [x for x in pair_ops(specs) if not x[0].slow]
    for i, (s1, f1, c1, u1) in enumerate(table[lo:hi]):
        for s2, f2, c2, u2 in table[lo + i + 1:]:
            if s1.fn.split(".")[0] != s2.fn.split(".")[0] and not THOROUGH:
                continue
            if not check_pair([(s1, f1, c1[0]), (s2, f2, c2[0])], res, "X=%s[%s] Y=%s[%s]" % (s1.fn, c1[0].name, s2.fn, c2[0].name), False, 10, 0):
                return res
    return res
