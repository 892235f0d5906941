"""Job runner: every job is one forked process; a job that dies or never returns is itself an observation."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from .explore import Res

WORKERS = int(os.environ.get("VP_WORKERS", "8"))


def _child(fd, fn, job):
    try:
        try:
            out = ("res", fn(job))
        except MemoryError:
            out = ("err", "MemoryError", "")
        except BaseException as e:           # noqa
            out = ("err", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
        b = pickle.dumps(out)
        os.write(fd, struct.pack("<Q", len(b)))
        while b:
            b = b[os.write(fd, b):]
    finally:
        os._exit(0)


def _killtree(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run(jobs, fn, timeout, deadline):
    """yields (job, status, payload, seconds); status in res / err / died / timeout / notrun
    (jobs still running 70 s after the deadline count as not run); closing the generator ends the running jobs"""
    live = {}                               # fd -> [index, job, pid, t0, buffer]
    try:
        yield from _run(jobs, fn, timeout, deadline, live)
    finally:
        for fd, (_, _, pid, _, _) in live.items():
            os.close(fd)
            _killtree(pid)
            os.waitpid(pid, 0)


def _run(jobs, fn, timeout, deadline, live):
    todo = list(enumerate(jobs))
    todo.reverse()
    retry = set()
    while todo or live:
        while todo and len(live) < WORKERS:
            i, job = todo.pop()
            if time.time() > deadline:
                yield job, "notrun", None, 0.0
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                for f in live:
                    os.close(f)
                _child(w, fn, job)
            os.close(w)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            live[r] = [i, job, pid, time.time(), b""]
        if not live:
            continue
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in list(live):
            i, job, pid, t0, buf = live[fd]
            ended = False
            if fd in ready:
                c = os.read(fd, 1 << 20)
                if c:
                    live[fd][4] = buf = buf + c
                    ended = len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]
                else:
                    ended = True
            if ended or now - t0 > timeout or now > deadline + 70:
                os.close(fd)
                del live[fd]
                _killtree(pid)
                os.waitpid(pid, 0)
                if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]:
                    out = pickle.loads(buf[8:])
                    yield job, out[0], out[1:] if out[0] == "err" else out[1], now - t0
                elif not ended and now - t0 <= timeout:
                    yield job, "notrun", None, now - t0
                elif not ended:
                    yield job, "timeout", None, now - t0
                elif i in retry:
                    yield job, "died", None, now - t0
                else:                       # once more, in case the sandbox killed it (memory)
                    retry.add(i)
                    todo.append((i, job))
