"""Running hostile cases: forked, resource-limited children and guarded arrays."""
import contextlib
import gc
import mmap
import os
import resource
import signal
import sys
import traceback

import numpy as np

from .core import HarnessError, Violation

PAD = 1 << 16
MAGIC = 0xa5


class Guarded(object):
    """Arrays between two red zones; ``bad()`` tells whether one was touched."""

    def __init__(self):
        self.bufs = []

    def alloc(self, real, shape, dtype=float, order='C', **kw):
        dt = np.dtype(dtype)
        probe = real(shape, dtype=dtype, order=order, **kw)   # same argument errors
        n = probe.nbytes
        if probe.dtype.hasobject or n == 0 or n > (64 << 20):
            return probe
        try:
            return self.guard(probe, n)
        except Exception as e:
            if isinstance(e, MemoryError):
                return probe
            raise HarnessError('guarded array: %r' % e)

    def guard(self, probe, n):
        buf = np.full(n + 2 * PAD, MAGIC, np.uint8)
        lead = (-buf.ctypes.data - PAD) % 64
        a = np.ndarray(probe.shape, probe.dtype, buf, PAD - lead if lead < PAD else PAD,
                       order='F' if probe.flags['F_CONTIGUOUS'] and not probe.flags['C_CONTIGUOUS']
                       else 'C')
        off = PAD - lead if lead < PAD else PAD
        self.bufs.append((buf, off, n))
        return a

    def bad(self):
        for buf, off, n in self.bufs:
            if (buf[:off] != MAGIC).any() or (buf[off + n:] != MAGIC).any():
                return True
        return False


@contextlib.contextmanager
def guarded_arrays():
    """numpy.empty hands out arrays with red zones.  If the code under test
    allocates in another way nothing is monitored and nothing is reported."""
    g = Guarded()
    real = np.empty

    def empty(shape, dtype=float, order='C', **kw):
        return g.alloc(real, shape, dtype, order, **kw)
    np.empty = empty
    try:
        yield g
    finally:
        np.empty = real


CPU_LIMIT = 20
MEM_LIMIT = 3 << 30


def in_child(fn, cpu=CPU_LIMIT, mem=MEM_LIMIT):
    """Runs fn(note) in a forked child.  ``note(text)`` records progress, a
    returned string is a verdict.  Returns (verdict or None, progress, died)
    where died is None or a description of how the child ended."""
    shm = mmap.mmap(-1, 8192)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            # the parent's CPU time is not inherited by the child
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            gc.freeze()

            def note(text):
                b = text.encode('utf-8', 'replace')[:2000]
                shm[2:2 + len(b)] = b
                shm[0:2] = len(b).to_bytes(2, 'little')
            try:
                verdict = fn(note)
                code = 0 if verdict is None else 1
            except BaseException:
                verdict = traceback.format_exc()
                code = 3
            if verdict is not None:
                b = verdict.encode('utf-8', 'replace')[:5000]
                shm[2100:2100 + len(b)] = b
                shm[2098:2100] = len(b).to_bytes(2, 'little')
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)

    def text(at):
        k = int.from_bytes(shm[at:at + 2], 'little')
        return bytes(shm[at + 2:at + 2 + k]).decode('utf-8', 'replace')
    progress, verdict = text(0), text(2098)
    shm.close()
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        how = 'did not finish within %d CPU seconds' % cpu if sig in (signal.SIGXCPU, signal.SIGPROF) \
            else 'was killed by signal %d (%s)' % (sig, signal.Signals(sig).name)
        if sig == signal.SIGKILL:
            raise HarnessError('a child was killed: %s' % progress)
        return None, progress, how
    code = os.WEXITSTATUS(st)
    if code == 0:
        return None, progress, None
    if code == 1:
        return verdict, progress, None
    if code == 3:
        raise HarnessError('in the child: %s\n%s' % (progress, verdict))
    return None, progress, 'ended with status %d' % code


def judge(fn, **kw):
    verdict, progress, died = in_child(fn, **kw)
    if died:
        raise Violation('the process %s while: %s' % (died, progress))
    if verdict:
        raise Violation('%s (while: %s)' % (verdict, progress))


def ordinary(e):
    """Is this an ordinary exception?  (ChunkingException derives from
    BaseException in bloscpack, but it is a documented one.)"""
    return isinstance(e, Exception) or type(e).__name__ == 'ChunkingException'


def quiet_stdio():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)
