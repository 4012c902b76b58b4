"""All the public ways into the code under test, behind uniform signatures."""
import io
import os
import sys
import zlib

from . import env
from .core import HarnessError

import blosc
import bloscpack as bp
import bloscpack.append
import bloscpack.abstract_io as abstract_io
import bloscpack.file_io as file_io
import bloscpack.memory_io as memory_io
import bloscpack.numpy_io as numpy_io
import bloscpack.log as bp_log
from bloscpack.args import calculate_nchunks

append_mod = bloscpack.append
ENV_PY = sys.executable
BLPK = os.path.join(env.REPO, 'blpk')


def write_file(path, data):
    with open(path, 'wb') as fp:
        fp.write(data)


def read_file(path):
    with open(path, 'rb') as fp:
        return fp.read()


def stale(path, data):
    """Half of the outputs replace an older, longer file."""
    if zlib.crc32(data) & 1:
        write_file(path, b'\xaa' * (70000 + 2 * len(data)))
    elif os.path.exists(path):
        os.unlink(path)


# ------------------------------------------------------------ writers
# each: (ctx, data, **kw) -> packed bytes

def w_bytes_bytes(ctx, data, **kw):
    return bp.pack_bytes_to_bytes(data, **kw)


def _via_file(fn):
    def w(ctx, data, **kw):
        out = ctx.path('w_out.blp')
        stale(out, data)
        fn(data, out, **kw)
        r = read_file(out)
        os.unlink(out)
        return r
    return w


def _file_file(fn):
    def w(ctx, data, **kw):
        src, out = ctx.path('w_in'), ctx.path('w_out.blp')
        write_file(src, data)
        stale(out, data)
        fn(src, out, **kw)
        r = read_file(out)
        os.unlink(out)
        os.unlink(src)
        return r
    return w


def w_core(ctx, data, chunk_size='1M', **kw):
    """pack() on explicit source and sink objects."""
    n, c, l = calculate_nchunks(len(data), chunk_size)
    out = io.BytesIO()
    # plain sources are read from where they are
    skip = zlib.crc32(data) % 3
    src = io.BytesIO(b'#' * skip + data + b'#' * (skip // 2))
    src.seek(skip)
    bp.abstract_io.pack(file_io.PlainFPSource(src), file_io.CompressedFPSink(out),
                        n, c, l, **kw)
    return out.getvalue()


WRITERS = {
    'pack_bytes_to_bytes': w_bytes_bytes,
    'pack_bytes_to_file': _via_file(lambda *a, **k: bp.pack_bytes_to_file(*a, **k)),
    'pack_bytes_file': _via_file(lambda *a, **k: bp.pack_bytes_file(*a, **k)),
    'pack_file_to_file': _file_file(lambda *a, **k: bp.pack_file_to_file(*a, **k)),
    'pack_file': _file_file(lambda *a, **k: bp.pack_file(*a, **k)),
    'pack': w_core,
}


# ------------------------------------------------------------ readers
# each: (ctx, packed) -> (data, metadata)

def r_bytes_bytes(ctx, packed):
    return bp.unpack_bytes_from_bytes(packed)


def _from_file(fn):
    def r(ctx, packed):
        src = ctx.path('r_in.blp')
        write_file(src, packed)
        try:
            return fn(src)
        finally:
            os.unlink(src)
    return r


def _file_to_file(fn):
    def r(ctx, packed):
        src, out = ctx.path('r_in.blp'), ctx.path('r_out')
        write_file(src, packed)
        stale(out, packed)
        try:
            meta = fn(src, out)
            return read_file(out), meta
        finally:
            os.unlink(src)
    return r


def r_core(ctx, packed):
    src = file_io.CompressedFPSource(io.BytesIO(packed))
    out = io.BytesIO()
    abstract_io.unpack(src, file_io.PlainFPSink(out))
    return out.getvalue(), src.metadata


def r_memory(ctx, packed):
    src = file_io.CompressedFPSource(io.BytesIO(packed))
    sink = memory_io.PlainMemorySink(src.nchunks)
    abstract_io.unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


def r_memory_open(ctx, packed):
    src = file_io.CompressedFPSource(io.BytesIO(packed))
    sink = memory_io.PlainMemorySink()
    abstract_io.unpack(src, sink)
    return b''.join(sink.chunks), src.metadata


READERS = {
    'unpack_bytes_from_bytes': r_bytes_bytes,
    'unpack_bytes_from_file': _from_file(lambda p: bp.unpack_bytes_from_file(p)),
    'unpack_bytes_file': _from_file(lambda p: bp.unpack_bytes_file(p)),
    'unpack_file_from_file': _file_to_file(lambda a, b: bp.unpack_file_from_file(a, b)),
    'unpack_file': _file_to_file(lambda a, b: bp.unpack_file(a, b)),
    'unpack': r_core,
    'unpack_to_memory': r_memory,
    'unpack_to_memory_open': r_memory_open,
}


# ------------------------------------------------------------ arrays

def nw_bytes(ctx, a, **kw):
    return bp.pack_ndarray_to_bytes(a, **kw)


def nw_file(fn):
    def w(ctx, a, **kw):
        out = ctx.path('nw_out.blp')
        if a.size % 2:
            write_file(out, b'\xaa' * (70000 + 2 * a.nbytes))
        fn(a, out, **kw)
        r = read_file(out)
        os.unlink(out)
        return r
    return w


def nw_core(ctx, a, **kw):
    out = io.BytesIO()
    numpy_io.pack_ndarray(a, file_io.CompressedFPSink(out), **kw)
    return out.getvalue()


ND_WRITERS = {
    'pack_ndarray_to_bytes': nw_bytes,
    'pack_ndarray_str': lambda ctx, a, **kw: bp.pack_ndarray_str(a, **kw),
    'pack_ndarray_to_file': nw_file(lambda *a, **k: bp.pack_ndarray_to_file(*a, **k)),
    'pack_ndarray_file': nw_file(lambda *a, **k: bp.pack_ndarray_file(*a, **k)),
    'pack_ndarray': nw_core,
}


def nr_file(fn):
    def r(ctx, packed):
        src = ctx.path('nr_in.blp')
        write_file(src, packed)
        try:
            return fn(src)
        finally:
            os.unlink(src)
    return r


ND_READERS = {
    'unpack_ndarray_from_bytes': lambda ctx, p: bp.unpack_ndarray_from_bytes(p),
    'unpack_ndarray_str': lambda ctx, p: bp.unpack_ndarray_str(p),
    'unpack_ndarray_from_file': nr_file(lambda p: bp.unpack_ndarray_from_file(p)),
    'unpack_ndarray_file': nr_file(lambda p: bp.unpack_ndarray_file(p)),
    'unpack_ndarray': lambda ctx, p: numpy_io.unpack_ndarray(
        file_io.CompressedFPSource(io.BytesIO(p))),
}


# ------------------------------------------------------------ command line

class Cli(object):
    """Result of one blpk invocation."""

    def __init__(self, status, out, err, signal=None):
        self.status, self.out, self.err, self.signal = status, out, err, signal

    @property
    def text(self):
        return self.out + self.err

    def __repr__(self):
        return 'exit %s, stdout %r, stderr %r' % (
            self.status if self.signal is None else 'signal %d' % self.signal,
            self.out[-600:], self.err[-900:])


def run_cli(args, cwd, nthreads_parent=1, setup=None):
    """Runs ``blpk args`` in a forked child (same code path as the blpk script,
    without the cost of starting an interpreter)."""
    outp = os.path.join(cwd, os.pardir, '.cli_out')
    errp = os.path.join(cwd, os.pardir, '.cli_err')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 77
        try:
            import signal
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            o = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            e = os.open(errp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(o, 1)
            os.dup2(e, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8',
                                          errors='backslashreplace')
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8',
                                          errors='backslashreplace')
            os.chdir(cwd)
            sys.argv = ['blpk'] + list(args)
            if setup:
                setup()
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (60, 61))
            from bloscpack import cli
            try:
                cli.main()
                status = 0
            except SystemExit as ex:
                c = ex.code
                status = 0 if c is None else c if isinstance(c, int) else 1
                if not isinstance(c, (int, type(None))):
                    sys.stderr.write(str(c) + '\n')
            except BaseException:
                import traceback
                traceback.print_exc()
                status = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(status & 0xff)
    _, st = os.waitpid(pid, 0)
    out = open(outp, 'rb').read().decode('utf-8', 'replace')
    err = open(errp, 'rb').read().decode('utf-8', 'replace')
    os.unlink(outp)
    os.unlink(errp)
    if os.WIFSIGNALED(st):
        return Cli(None, out, err, os.WTERMSIG(st))
    return Cli(os.WEXITSTATUS(st), out, err)


def run_blpk(args, cwd):
    """Runs the real blpk script in its own interpreter."""
    import subprocess
    e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([ENV_PY, BLPK] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    dec = lambda b: b.decode('utf-8', 'replace')  # noqa: E731
    if p.returncode < 0:
        return Cli(None, dec(p.stdout), dec(p.stderr), -p.returncode)
    return Cli(p.returncode, dec(p.stdout), dec(p.stderr))


def workdir(ctx, name='cwd'):
    d = ctx.path(name)
    os.mkdir(d)
    return d


def snapshot(d):
    return dict((n, read_file(os.path.join(d, n))) for n in sorted(os.listdir(d)))
