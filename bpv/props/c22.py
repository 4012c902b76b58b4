"""C22: compression and decompression stream chunk by chunk."""
import gc
import io
import os
import random
import sys
import tracemalloc

import blosc
import numpy as np
from hypothesis import strategies as st

from .. import api, calls, gen, ref, words
from ..core import Enum, Gen, HarnessError, expect, expect_eq, must_succeed

aio, fio, mio, nio = api.abstract_io, api.file_io, api.memory_io, api.numpy_io

ASSUMPTIONS = ['memory is what Python and numpy allocate (tracemalloc); the working memory inside c-blosc is not seen',
               'bound: 6 chunks + 200 bytes per chunk and reserved offset + 384 KiB; the files hold at least 40 chunks, or at least 10 of 400 KB or more']

BASE = 384 * 1024


def bound(chunk, entries):
    return 6 * chunk + 200 * entries + BASE


def measured(fn):
    """The result of fn() and the peak of the memory allocated meanwhile."""
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = fn()
        return r, tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()


def check_peak(peak, limit, what):
    expect(peak <= limit, '%s needed %d bytes of memory, more than %d', what, peak, limit)


# ------------------------------------------------------------ file objects

class Content(object):
    """A long content made of a few blocks, never held as a whole."""

    def __init__(self, size, seed, kind):
        self.size = size
        self.block = 1 << 16
        self.blocks = [gen.make_data({'size': self.block, 'kind': kind, 'seed': seed + i}) for i in range(5)]

    def piece(self, pos, n):
        out = []
        n = min(n, self.size - pos)
        while n > 0:
            b, o = divmod(pos, self.block)
            part = self.blocks[(b * b + b // 7) % 5][o:o + n]
            out.append(part)
            pos += len(part)
            n -= len(part)
        return b''.join(out)

    def write(self, path):
        with open(path, 'wb') as fp:
            for pos in range(0, self.size, self.block):
                fp.write(self.piece(pos, self.block))

    def same_as(self, path):
        if os.path.getsize(path) != self.size:
            return False
        with open(path, 'rb') as fp:
            return all(fp.read(self.block) == self.piece(pos, self.block) for pos in range(0, self.size, self.block))


class VirtualInput(object):
    """Reads from a Content; notes where."""

    def __init__(self, content, seekable=True):
        self.content, self.pos, self.reads, self.can_seek = content, 0, [], seekable

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.content.size - self.pos
        r = self.content.piece(self.pos, n)
        if r:
            self.reads.append((self.pos, len(r)))
        self.pos += len(r)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def tell(self):
        return self.pos

    def seekable(self):
        return self.can_seek

    def readable(self):
        return True

    def seek(self, pos, whence=0):
        if not self.can_seek:
            raise io.UnsupportedOperation('seek')
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else self.content.size + pos
        return self.pos


def check_once(reads, size, what):
    pos = 0
    for p, n in reads:
        expect(p == pos, '%s: read at %d after everything up to %d had been read', what, p, pos)
        pos = p + n
    expect_eq(pos, size, '%s: number of input bytes read' % what)


class ForwardOnly(object):
    """Takes bytes, counts and hashes them, and cannot go back."""

    def __init__(self, keep=None):
        self.pos = 0
        self.keep = keep

    def write(self, b):
        if self.keep is not None:
            self.keep.write(b)
        self.pos += len(b)
        return len(b)

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def seekable(self):
        return False

    def writable(self):
        return True

    def seek(self, pos, whence=0):
        to = pos if whence == 0 else self.pos + pos
        if to != self.pos:
            raise io.UnsupportedOperation('seek to %d from %d' % (to, self.pos))
        return self.pos


class SpyFile(object):
    """A real file whose reads are noted."""

    def __init__(self, path):
        self.fp = open(path, 'rb')
        self.size = os.path.getsize(path)
        self.furthest = 0
        self.back = 0
        self.most = 0
        self.total = 0

    def read(self, n=-1):
        at = self.fp.tell()
        r = self.fp.read(n)
        if r:
            self.back = max(self.back, self.furthest - at)
            self.furthest = max(self.furthest, at + len(r))
            self.most = max(self.most, len(r))
            self.total += len(r)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.fp.seek(*a)

    def tell(self):
        return self.fp.tell()

    def close(self):
        self.fp.close()


# ------------------------------------------------------------ cases

@st.composite
def cases(draw):
    chunk = draw(st.sampled_from([16384, 30000, 65536, 65536, 100001, 131072]))
    n = draw(st.integers(40, 60)) if chunk > 40000 else draw(st.integers(80, 160))
    if draw(st.integers(0, 3)) == 0:
        # fewer, but large ones
        chunk, n = draw(st.sampled_from([400000, 2 ** 19, 2 ** 20])), draw(st.integers(10, 24))
    # incompressible contents keep the compressed chunks as large as the plain ones
    kind = draw(st.sampled_from(['rnd', 'rnd', 'rnd', 'mixed', 'zero', 'arith4', 'few']))
    bl = draw(gen.blosc_spec())
    if bl and bl.get('clevel', 7) > 5 and bl.get('cname') not in (None, 'blosclz', 'lz4'):
        bl = dict(bl, clevel=3)
    bp = draw(gen.bloscpack_spec())
    return {'chunk': chunk, 'size': chunk * n + draw(st.sampled_from([0, 1, -1, 7777])), 'kind': kind,
            'seed': draw(st.integers(0, 10 ** 6)), 'blosc': bl, 'bp': bp, 'margs': draw(gen.metadata_args_spec()),
            'meta': draw(st.sampled_from([None, {'v': {'a': 1}}, {'v': []}])),
            'how': draw(st.sampled_from(['file', 'file', 'objects', 'objects', 'cli', 'array', 'append'])),
            'level': draw(st.sampled_from(['NORMAL'] * 8 + ['VERBOSE', 'DEBUG']))}


def args(c):
    return {'blosc_args': gen.make_blosc_args(c['blosc']), 'bloscpack_args': gen.make_bloscpack_args(c['bp']),
            'metadata': gen.make_metadata(c['meta']), 'metadata_args': gen.make_metadata_args(c['margs'])}


def check(c, ctx):
    content = Content(c['size'], c['seed'], c['kind'])
    n, cs, last = ref.partition(c['size'], c['chunk'])
    ebp = gen.effective_bloscpack(c['bp'])
    entries = n + gen.eval_max_app(ebp['max_app'], n, ebp['offsets'])
    limit = bound(cs, entries)
    if c['margs'] and 'reserve' in c['margs']:
        limit += 1000000 if 'int' in c['margs']['reserve'] else 0
    ctx.label(c['how'], c['kind'], c['level'], 'offsets' if ebp['offsets'] else 'no offsets')
    ctx.nontrivial(c['size'] > 2 * limit)
    # what debug messages need is not limited
    if c['level'] == 'DEBUG':
        limit += 40 * cs + 4000 * entries
    api.bp_log.LEVEL = c['level']
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        {'file': by_file, 'objects': by_objects, 'cli': by_cli, 'array': by_array, 'append': by_append}[c['how']](
            c, ctx, content, n, cs, last, ebp, limit)
    finally:
        sys.stdout.close()
        sys.stdout = out
        api.bp_log.LEVEL = 'NORMAL'


def by_file(c, ctx, content, n, cs, last, ebp, limit):
    src, packed, back = ctx.path('in'), ctx.path('in.blp'), ctx.path('out')
    content.write(src)
    with must_succeed('packing and unpacking files'):
        _, p1 = measured(lambda: api.bp.pack_file_to_file(src, packed, chunk_size=c['chunk'], **args(c)))
        os.unlink(src)
        _, p2 = measured(lambda: api.bp.unpack_file_from_file(packed, back))
    check_peak(p1, limit, 'packing a file of %d bytes in chunks of %d' % (content.size, cs))
    check_peak(p2, limit, 'unpacking a file of %d bytes in chunks of %d' % (content.size, cs))
    expect(content.same_as(back), 'other content restored')


def by_objects(c, ctx, content, n, cs, last, ebp, limit):
    packed, back = ctx.path('in.blp'), ctx.path('out')
    # with an even seed the input is something like a pipe
    src = VirtualInput(content, seekable=bool(c['seed'] % 2))
    what = 'packing from an object of %d bytes in chunks of %d' % (content.size, cs)
    with open(packed, 'wb') as fp:
        sink = fp if ebp['offsets'] else ForwardOnly(fp)
        with must_succeed(what):
            _, p1 = measured(lambda: aio.pack(fio.PlainFPSource(src), fio.CompressedFPSink(sink), n, cs, last, **args(c)))
    check_peak(p1, limit, what)
    check_once(src.reads, content.size, what)
    what = 'unpacking an object of %d bytes in chunks of %d' % (content.size, cs)
    spy = SpyFile(packed)
    with open(back, 'wb') as fp:
        with must_succeed(what):
            _, p2 = measured(lambda: aio.unpack(fio.CompressedFPSource(spy), fio.PlainFPSink(ForwardOnly(fp))))
    spy.close()
    check_peak(p2, limit, what)
    check_reads(spy, n, what)
    expect(content.same_as(back), 'other content restored')


def check_reads(spy, n, what):
    expect(spy.back <= 16, '%s: went back %d bytes', what, spy.back)
    expect_eq(spy.furthest, spy.size, '%s: end of what was read' % what)
    expect(spy.total <= spy.size + 16 * n, '%s: read %d bytes of a file of %d', what, spy.total, spy.size)


def by_cli(c, ctx, content, n, cs, last, ebp, limit):
    from bloscpack import cli
    src, packed, back = ctx.path('in'), ctx.path('in.blp'), ctx.path('out')
    content.write(src)
    eb = gen.effective_blosc(c['blosc'])
    opts = ['compress', '-z', str(c['chunk']) + 'B', '-t', str(eb['typesize']), '-l', str(eb['clevel']), '-c', eb['cname'],
            '-k', ebp['checksum']] + ([] if ebp['offsets'] else ['-o'])

    def run(a):
        sys.argv = ['blpk', '-n', '1'] + a
        try:
            cli.main()
        except SystemExit as e:
            expect(e.code in (0, None), 'blpk %s: exit status %r', ' '.join(a), e.code)

    def child():
        m1 = measured(lambda: run(opts + [src, packed]))[1]
        m2 = measured(lambda: run(['decompress', packed, back]))[1]
        return m1, m2
    p1, p2 = calls.forked(child)
    limit += 200 * 11 * n + 400000
    check_peak(p1, limit, 'blpk compress of %d bytes in chunks of %d' % (content.size, cs))
    check_peak(p2, limit, 'blpk decompress of %d bytes in chunks of %d' % (content.size, cs))
    expect(content.same_as(back), 'other content restored')


def by_array(c, ctx, content, n, cs, last, ebp, limit):
    src, packed = ctx.path('in'), ctx.path('in.npy.blp')
    content.write(src)
    a = np.fromfile(src, dtype='i1')
    kw = args(c)
    kw.pop('metadata')
    with must_succeed('packing and unpacking an array'):
        _, p1 = measured(lambda: nio.pack_ndarray_to_file(a, packed, chunk_size=c['chunk'], **kw))
        b, p2 = measured(lambda: nio.unpack_ndarray_from_file(packed))
        check_peak(p1, limit, 'packing an array of %d bytes in chunks of %d' % (content.size, cs))
        check_peak(p2, limit + content.size, 'unpacking an array of %d bytes in chunks of %d' % (content.size, cs))
        expect(a.tobytes() == b.tobytes(), 'other array restored')


def by_append(c, ctx, content, n, cs, last, ebp, limit):
    """A short file takes the rest of a long content."""
    packed, back = ctx.path('in.blp'), ctx.path('out')
    k = random.Random(c['seed']).randint(1, 2 * cs)
    kw = args(c)
    kw['bloscpack_args'] = api.bp.BloscpackArgs(checksum=ebp['checksum'], max_app_chunks=n + 1)
    with must_succeed('packing the beginning'):
        api.bp.pack_bytes_to_file(content.piece(0, k), packed, chunk_size=min(cs, k), **kw)
    # the beginning may have made the chunks smaller than asked for
    head = ref.Header(api.read_file(packed)[:32])
    if head.chunk_size != cs:
        content.size = min(content.size, k + head.chunk_size * n)
    src = VirtualInput(content)
    src.pos = k
    what = 'appending %d bytes to chunks of %d' % (content.size - k, head.chunk_size)
    eb = gen.effective_blosc(c['blosc'])
    with open(packed, 'r+b') as fp:
        with must_succeed(what):
            _, p1 = measured(lambda: api.append_mod.append_fp(fp, src, content.size - k, eb))
    check_peak(p1, bound(cs, 3 * n) + (limit - bound(cs, n) if limit > bound(cs, 12 * n) else 0), what)
    check_once([(p - k, m) for p, m in src.reads], content.size - k, what)
    with must_succeed('unpacking'):
        api.bp.unpack_file_from_file(packed, back)
    expect(content.same_as(back), 'other content restored')


# ------------------------------------------------------------ many small chunks

@st.composite
def many_cases(draw):
    return {'chunk': draw(st.integers(16, 200)), 'n': draw(st.integers(3000, 9000)), 'seed': draw(st.integers(0, 10 ** 6)),
            'checksum': draw(st.sampled_from(['None', 'adler32', 'sha512', 'md5'])), 'offsets': draw(st.booleans()),
            'extra': draw(st.integers(0, 3000))}


def check_many(c, ctx):
    """Memory per chunk is a few bytes, no matter how many chunks there are."""
    content = Content(c['chunk'] * c['n'], c['seed'], 'rnd')
    src, packed, back = ctx.path('in'), ctx.path('in.blp'), ctx.path('out')
    content.write(src)
    bpa = api.bp.BloscpackArgs(checksum=c['checksum'], offsets=c['offsets'], max_app_chunks=c['extra'])
    bl = api.bp.BloscArgs(clevel=1, typesize=1, cname='lz4')
    blosc.set_nthreads(1)
    with must_succeed('packing and unpacking many chunks'):
        _, p1 = measured(lambda: api.bp.pack_file_to_file(src, packed, chunk_size=c['chunk'], bloscpack_args=bpa,
                                                          blosc_args=bl))
        _, p2 = measured(lambda: api.bp.unpack_file_from_file(packed, back))
    ctx.nontrivial()
    ctx.label('offsets' if c['offsets'] else 'no offsets')
    limit = BASE + MANY * (c['n'] + c['extra'])
    check_peak(p1, limit, 'packing %d chunks of %d bytes' % (c['n'], c['chunk']))
    check_peak(p2, limit, 'unpacking %d chunks of %d bytes' % (c['n'], c['chunk']))
    expect(content.same_as(back), 'other content restored')


MANY = 200

# ------------------------------------------------------------ reading and writing once, sizes at boundaries

def once_cases(tier):
    k = 0
    for cs in words.around(1, 2 ** 21 if tier == 'quick' else 2 ** 26):
        for n in (1, 2, 3):
            k += 1
            yield {'cs': cs, 'size': cs * n - (cs // 2 if k % 2 else 0), 'k': k}
    for n in sorted(set(range(1, 40)) | set(words.around(40, 1100 if tier == 'quick' else 20000))):
        k += 1
        yield {'cs': 3, 'size': 3 * n - k % 3, 'k': k}


def check_once_all(c, ctx):
    """Where the input and the packed file are read and written."""
    k, cs = c['k'], c['cs']
    content = Content(c['size'], k, ('rnd', 'few', 'zero')[k % 3])
    n, cs, last = ref.partition(c['size'], cs)
    offsets = bool(k // 3 % 2)
    ck = gen.CHECKSUMS[k % len(gen.CHECKSUMS)]
    kw = {'blosc_args': api.bp.BloscArgs(clevel=1, typesize=1 + k % 8), 'metadata': [None, {'a': 1}][k // 2 % 2],
          'bloscpack_args': api.bp.BloscpackArgs(checksum=ck, offsets=offsets, max_app_chunks=k % 4)}
    what = 'packing %d bytes in chunks of %d' % (c['size'], cs)
    src = VirtualInput(content, seekable=bool(k % 2))
    packed = ctx.path('in.blp')
    ctx.nontrivial(n > 1)
    with open(packed, 'wb') as fp:
        sink = fp if offsets else ForwardOnly(fp)
        with must_succeed(what):
            aio.pack(fio.PlainFPSource(src), fio.CompressedFPSink(sink), n, cs, last, **kw)
    check_once(src.reads, c['size'], what)
    what = 'un' + what
    spy, back = SpyFile(packed), ctx.path('out')
    with open(back, 'wb') as fp:
        with must_succeed(what):
            aio.unpack(fio.CompressedFPSource(spy), fio.PlainFPSink(ForwardOnly(fp)))
    spy.close()
    check_reads(spy, n, what)
    expect(content.same_as(back), 'other content restored')
    if offsets and k % 4:
        src = VirtualInput(content)
        size = min(c['size'], cs - last + cs * (k % 4))
        what = 'appending %d bytes to %d in chunks of %d' % (size, c['size'], cs)
        content.size = size
        with open(packed, 'r+b') as fp:
            with must_succeed(what):
                api.append_mod.append_fp(fp, src, size)
        check_once(src.reads, size, what)



PARTS = [
    Enum('once', once_cases, check_once_all,
         'where packing, unpacking and appending read and write, for chunk sizes and chunk counts at powers of two, of '
         'ten and literals of the code with neighbours; non-trivial: several chunks'),
    Gen('large files', cases(), check, 500, 20000,
        'contents of at least 40 chunks through files, file objects, arrays, the command line and append; memory, '
        'reads, seeks and writes are watched; non-trivial: content larger than twice the memory allowed'),
    Gen('many chunks', many_cases(), check_many, 60, 2000,
        'thousands of tiny chunks; all non-trivial'),
]
