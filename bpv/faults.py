"""Fault injection: file objects that fail at a chosen operation."""
import builtins
import contextlib
import errno
import io
import random
import struct
import sys

from . import api, env

import blosc


class Odd(Exception):
    pass


class OddBase(BaseException):
    pass


KINDS = {
    'ENOSPC': lambda: OSError(errno.ENOSPC, 'No space left on device'),
    'EIO': lambda: OSError(errno.EIO, 'Input/output error'),
    'EINTR': lambda: InterruptedError(errno.EINTR, 'Interrupted system call'),
    'EAGAIN': lambda: BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable'),
    'ETIMEDOUT': lambda: TimeoutError(errno.ETIMEDOUT, 'Connection timed out'),
    'EPIPE': lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'),
    'ECONNRESET': lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
    'EDQUOT': lambda: OSError(errno.EDQUOT, 'Disk quota exceeded'),
    'EFBIG': lambda: OSError(errno.EFBIG, 'File too large'),
    'EACCES': lambda: PermissionError(errno.EACCES, 'Permission denied'),
    'no errno': lambda: OSError('injected'),
    'errno 256': lambda: OSError(256, 'injected'),
    'errno 0': lambda: OSError(0, 'injected'),
    'ESTALE': lambda: OSError(errno.ESTALE, 'Stale file handle'),
    'unsupported': lambda: io.UnsupportedOperation('injected'),
    'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': lambda: SystemExit(3),
    'MemoryError': MemoryError,
    'EOFError': EOFError,
    'ValueError': lambda: ValueError('injected'),
    'KeyError': lambda: KeyError('injected'),
    'RuntimeError': lambda: RuntimeError('injected'),
    'TypeError': lambda: TypeError('injected'),
    'AttributeError': lambda: AttributeError('injected'),
    'IndexError': lambda: IndexError('injected'),
    'OverflowError': lambda: OverflowError('injected'),
    'UnicodeError': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'injected'),
    'struct': lambda: struct.error('injected'),
    'NotImplementedError': lambda: NotImplementedError('injected'),
    'custom': Odd,
    'custom base': OddBase,
}


class Fault(object):
    """Counts operations and fails at the ``at``-th (None: never)."""

    def __init__(self, at=None, kind='EIO', part=0.0, persist=False, action=None):
        self.at, self.kind, self.part, self.persist, self.action = at, kind, part, persist, action
        self.log = []
        self.fired = False

    def step(self, what, size=0):
        """True if this operation has to fail."""
        i = len(self.log)
        self.log.append((what, size))
        if i == self.at:
            self.fired = True
            return True
        return self.fired and self.persist and what.endswith(':write')

    def boom(self):
        if self.action:
            self.action()
        raise KINDS[self.kind]()

    def call(self, what):
        if self.step(what):
            self.boom()


class FaultyFP(object):
    """A file object that passes everything on until its fault strikes."""

    def __init__(self, fp, name, fault):
        self.__dict__.update(_fp=fp, _name=name, _fault=fault)

    def write(self, data):
        f = self._fault
        if f.step(self._name + ':write', len(data)):
            n = int(len(data) * f.part)
            if n and len(f.log) - 1 == f.at:
                self._fp.write(data[:n])
            if f.action:
                self._fp.flush()
            f.boom()
        return self._fp.write(data)

    def read(self, *a):
        f = self._fault
        if f.step(self._name + ':read', a[0] if a else -1):
            if f.part and a and a[0]:
                self._fp.read(int(a[0] * f.part))
            f.boom()
        return self._fp.read(*a)

    def readinto(self, b):
        self._fault.call(self._name + ':read')
        return self._fp.readinto(b)

    def seek(self, *a):
        self._fault.call(self._name + ':seek')
        return self._fp.seek(*a)

    def tell(self):
        self._fault.call(self._name + ':tell')
        return self._fp.tell()

    def truncate(self, *a):
        self._fault.call(self._name + ':truncate')
        return self._fp.truncate(*a)

    def flush(self):
        self._fault.call(self._name + ':flush')
        return self._fp.flush()

    def close(self):
        if self._fp.closed:
            return None
        bad = self._fault.step(self._name + ':close')
        self._fp.close()
        if bad:
            self._fault.boom()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return iter(self._fp)

    def __getattr__(self, n):
        return getattr(self._fp, n)

    def __setattr__(self, n, v):
        setattr(self._fp, n, v)


MODULES = ['file_io', 'numpy_io', 'append', 'abstract_io', 'memory_io', 'cli']


@contextlib.contextmanager
def faulty_open(fault, names):
    """Files opened by the code under test become faulty.  ``names`` maps the
    path to the name of the stream."""
    mods = [sys.modules['bloscpack.' + m] for m in MODULES if 'bloscpack.' + m in sys.modules]

    def opener(path, mode='r', *a, **kw):
        fp = builtins.open(path, mode, *a, **kw)
        name = names.get(path)
        return FaultyFP(fp, name, fault) if name else fp
    saved = [(m, m.__dict__.get('open')) for m in mods]
    for m in mods:
        m.open = opener
    try:
        yield
    finally:
        for m, old in saved:
            if old is None:
                del m.open
            else:
                m.open = old


@contextlib.contextmanager
def faulty_codec(fault):
    """The blosc calls become operations that can fail, too."""
    saved = {}

    def wrap(n):
        real = getattr(blosc, n)

        def call(*a, **kw):
            fault.call('blosc:' + n)
            return real(*a, **kw)
        saved[n] = real
        setattr(blosc, n, call)
    for n in ('compress', 'compress_ptr', 'decompress', 'decompress_ptr'):
        wrap(n)
    try:
        yield
    finally:
        for n, real in saved.items():
            setattr(blosc, n, real)


class LineInterrupt(object):
    """Raises at the n-th line executed inside the code under test, as an
    asynchronous interrupt would."""

    def __init__(self, at, kind='KeyboardInterrupt'):
        self.at, self.kind, self.count, self.fired = at, kind, 0, False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.SUT_DIR):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line' and not self.fired:
            if self.count == self.at:
                self.fired = True
                raise KINDS[self.kind]()
            self.count += 1
        return self.line


def pick_points(log, seed, limit):
    """Which operations to fail: all, unless there are many."""
    points = [i for i, (w, n) in enumerate(log) if not (w.endswith(':write') and n == 1)]
    ones = [i for i, (w, n) in enumerate(log) if w.endswith(':write') and n == 1]
    r = random.Random(seed)
    points += r.sample(ones, min(3, len(ones)))
    if len(points) > limit:
        points.sort()
        k = limit // 4
        mid = points[k:-k]
        points = points[:k] + r.sample(mid, limit - 2 * k) + points[-k:]
    return sorted(set(points))


__all__ = ['Fault', 'FaultyFP', 'faulty_open', 'faulty_codec', 'LineInterrupt', 'pick_points', 'KINDS', 'io', 'api']
