"""Execution of a program in a pristine process: a fork of a process that has only imported the library, or a new interpreter."""
import os
import pickle
import struct
import subprocess
import sys
import time

from . import core


class Job:
    """A program with what is needed to run it elsewhere."""

    def __init__(self, program, override=None, hc=False, zone="UTC0"):
        self.program, self.override, self.hc, self.zone = program, override or {}, hc, zone


def perform(job, path):
    """Build and write the program. Returns ('ok', bytes) or ('error', type, text)."""
    from . import spec
    os.environ["TZ"] = job.zone
    time.tzset()
    try:
        if job.hc:
            from dliswriter import high_compatibility_mode
            with high_compatibility_mode():
                r = spec.Runner(job.program)
                r.build()
                r.write(path, **job.override)
        else:
            r = spec.Runner(job.program)
            r.build()
            r.write(path, **job.override)
        with open(path, "rb") as f:
            return "ok", f.read()
    except Exception as e:
        return "error", type(e).__name__, str(e)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack(">Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def get(n):
        parts = []
        while n:
            x = os.read(fd, min(n, 1 << 20))
            if not x:
                return None
            parts.append(x)
            n -= len(x)
        return b"".join(parts)
    h = get(8)
    if h is None:
        return None
    b = get(struct.unpack(">Q", h)[0])
    return None if b is None else pickle.loads(b)


class Zygote:
    """A child which forks a grandchild for each job; it never uses the library itself."""

    def __init__(self, scratch):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                import signal
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                n = 0
                while True:
                    job = _recv_raw(r1)
                    if job is None:
                        os._exit(0)
                    n += 1
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.setitimer(signal.ITIMER_PROF, core.CASE_CPU_SECONDS)
                            _send(w2, perform(pickle.loads(job), os.path.join(scratch, f"zygote-{os.getpid()}.dlis")))
                        finally:
                            os._exit(0)
                    _, st = os.waitpid(pid, 0)
                    if st:
                        _send(w2, ("error", "Died", f"status {st}"))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def run(self, job):
        _send(self.w, job)
        res = _recv(self.r)
        if res is None:
            raise core.Inconclusive("the pristine process ended")
        return res

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def _recv_raw(fd):
    def get(n):
        parts = []
        while n:
            x = os.read(fd, min(n, 1 << 20))
            if not x:
                return None
            parts.append(x)
            n -= len(x)
        return b"".join(parts)
    h = get(8)
    return None if h is None else get(struct.unpack(">Q", h)[0])


def new_interpreter(job, scratch, hashseed="random", env=None):
    """The job in a new Python interpreter."""
    path = os.path.join(scratch, "interp.dlis")
    e = {**os.environ, "PYTHONHASHSEED": hashseed, "VERIF_REPO": core.REPO, **(env or {})}
    pr = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c",
                         "import sys; sys.path.insert(0, %r); from vf import fresh; fresh.main(%r)" % (core.VERIF, path)],
                        input=pickle.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=300)
    if pr.returncode:
        raise core.Inconclusive(f"new interpreter ended with {pr.returncode}")
    return pickle.loads(pr.stdout)


def main(path):
    core.import_library()
    out = os.dup(1)
    os.dup2(2, 1)
    res = perform(pickle.loads(sys.stdin.buffer.read()), path)
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(res))
