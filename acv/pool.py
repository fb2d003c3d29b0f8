"""Forked worker pool with a hard per-task time limit.

A task is (function, argument); its result travels back pickled.  A task that
outlives its limit has its whole process group ended and is reported as
{"status": "hang"}; a worker that dies is reported as {"status": "crash"}.
"""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import env


class Task:
    __slots__ = ("key", "pid", "fd", "buf", "deadline", "t0")


def _child(fn, arg, wfd, budget):
    os.setpgid(0, 0)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("ACV_DEBUG"):
        os.dup2(devnull, 2)
    try:
        res = fn(arg)
    except BaseException as e:  # noqa: BLE001
        res = {"status": "harness_error", "detail": "".join(traceback.format_exception(e))[-3000:]}
        if isinstance(e, Exception) and not isinstance(e, MemoryError | OSError):
            # raised inside of ACETONE, where no check expects an exception
            where = [f"{f.filename.rpartition('acetone_nnet/')[2]}:{f.name}" for f in traceback.extract_tb(e.__traceback__)
                     if f.filename.startswith(os.path.join(env.REPO, "src"))]
            if where:
                res = {"status": "code_error", "kind": f"raised:{type(e).__name__}", "detail": f"{where[-1]}: {e}"[:600]}
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(struct.pack("<Q", len(data)))
        f.write(data)
        f.flush()
    os._exit(0)


def pmap(fn, args, *, timeout=120, workers=None, deadline=None, on_result=None):
    """Run fn over args in forked children.  Yields (index, result) as they finish.

    `args` may be a generator.  When `deadline` (time.time()) has passed, no new task is started.
    """
    workers = workers or env.NCPU
    it = enumerate(args)
    live = {}
    exhausted = False
    env.scratch_root()
    while True:
        while not exhausted and len(live) < workers:
            if deadline is not None and time.time() > deadline:
                exhausted = True
                break
            try:
                key, arg = next(it)
            except StopIteration:
                exhausted = True
                break
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for t in live.values():
                    os.close(t.fd)
                try:
                    _child(fn, arg, w, timeout)
                finally:
                    os._exit(70)
            os.close(w)
            t = Task()
            t.key, t.pid, t.fd, t.buf = key, pid, r, bytearray()
            t.t0 = time.time()
            t.deadline = t.t0 + timeout
            live[r] = t
        if not live:
            return
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        done = []
        for fd in rd:
            t = live[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                t.buf += chunk
                continue
            done.append((t, None))
        for t in list(live.values()):
            if now > t.deadline and all(d[0] is not t for d in done):
                done.append((t, "hang"))
        for t, why in done:
            del live[t.fd]
            os.close(t.fd)
            try:
                os.killpg(t.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                _, st = os.waitpid(t.pid, 0)
            except ChildProcessError:
                st = 0
            if why:
                res = {"status": why, "detail": f"no result within {timeout}s"}
            elif len(t.buf) >= 8 and len(t.buf) - 8 == struct.unpack("<Q", t.buf[:8])[0]:
                res = pickle.loads(bytes(t.buf[8:]))
            else:
                res = {"status": "crash", "detail": f"worker ended with wait status {st}"}
            yield t.key, res
