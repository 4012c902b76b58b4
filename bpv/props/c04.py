"""C04: every written file conforms to the documented format."""
import io
import struct

from hypothesis import strategies as st

from .. import api, gen, ndgen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed

ASSUMPTIONS = ['the reference parser (bpv/ref.py) states the README format faithfully',
               'blosc.decompress is trusted to decode single chunks']


def conform(packed, what='the file'):
    try:
        return ref.parse(packed, strict=True)
    except ref.RefError as e:
        raise Violation('%s does not conform to the format: %s' % (what, e))


def check_header(f, size, chunk, bpspec, typesize, has_meta):
    n, c, last = ref.partition(size, chunk)
    e = gen.effective_bloscpack(bpspec)
    want = {'version': 3, 'offsets': bool(e['offsets']), 'metadata': has_meta,
            'checksum': e['checksum'], 'typesize': typesize, 'chunk_size': c, 'last_chunk': last,
            'nchunks': n, 'max_app': gen.eval_max_app(e['max_app'], n, e['offsets'])}
    got = f.header.dict()
    for k in ref.Header.FIELDS:
        expect_eq(got[k], want[k], 'header field %s' % k)


@st.composite
def cases(draw):
    c = {'plan': draw(gen.plan()), 'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
         'meta': draw(gen.metadata_spec()), 'margs': draw(gen.metadata_args_spec()),
         'writer': draw(st.sampled_from(sorted(api.WRITERS))),
         'threads': draw(st.sampled_from([1, 1, 1, 3]))}
    return c


def check(c, ctx):
    data, meta = gen.make_data(c['plan']['data']), gen.make_metadata(c['meta'])
    n, chunk, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    e = gen.effective_bloscpack(c['bp'])
    ctx.label('checksum=' + e['checksum'], 'offsets' if e['offsets'] else 'no offsets',
              'metadata' if meta is not None else 'no metadata',
              'reserved' if gen.eval_max_app(e['max_app'], n, e['offsets']) else None,
              'empty' if not data else 'multi chunk' if n > 1 else 'one chunk', c['writer'])
    ctx.nontrivial(n > 1)
    kw = gen.chunk_kw(c['plan'])
    api.blosc.set_nthreads(c['threads'])
    try:
        with must_succeed('packing with %s' % c['writer']):
            packed = api.WRITERS[c['writer']](
                ctx, data, metadata=meta, blosc_args=gen.make_blosc_args(c['blosc']),
                bloscpack_args=gen.make_bloscpack_args(c['bp']),
                metadata_args=gen.make_metadata_args(c['margs']), **kw)
    finally:
        api.blosc.set_nthreads(1)
    f = conform(packed)
    expect_eq(f.data, data, 'data stored in the file')
    check_header(f, len(data), gen.plan_chunk(c['plan']), c['bp'],
                 gen.effective_blosc(c['blosc'])['typesize'], meta is not None)
    if meta is not None:
        expect(ref.strict_eq(f.metadata, meta), 'stored metadata %r', f.metadata)
        m = gen.effective_metadata_args(c['margs'])
        expect_eq(f.meta_header.checksum, m['meta_checksum'], 'metadata checksum')
        expect_eq(f.meta_header.magic, b'JSON\0\0\0\0', 'metadata magic')
        expect_eq(f.meta_header.user_codec, bytes(8), 'user codec')


@st.composite
def nd_cases(draw):
    a = draw(ndgen.array_spec(big=False))
    it = ndgen.make_dtype(a['dtype']).itemsize
    return {'a': a, 'chunk': None if draw(st.booleans()) else it * draw(st.integers(1, 40)),
            'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
            'margs': draw(gen.metadata_args_spec()),
            'writer': draw(st.sampled_from(sorted(api.ND_WRITERS)))}


def check_nd(c, ctx):
    a = ndgen.make_array(c['a'])
    kw = {} if c['chunk'] is None else {'chunk_size': c['chunk']}
    with must_succeed('packing an array with %s' % c['writer']):
        packed = api.ND_WRITERS[c['writer']](
            ctx, a, blosc_args=gen.make_blosc_args(c['blosc']),
            bloscpack_args=gen.make_bloscpack_args(c['bp']),
            metadata_args=gen.make_metadata_args(c['margs']), **kw)
    f = conform(packed)
    ctx.nontrivial(f.header.nchunks > 1)
    ctx.label('multi chunk' if f.header.nchunks > 1 else 'one chunk')
    check_header(f, a.nbytes, c['chunk'] or 2 ** 20, c['bp'], a.itemsize, True)
    import numpy
    order = 'F' if numpy.isfortran(a) else 'C'
    if not ndgen.has_padding(a.dtype):
        expect(f.data == a.tobytes(order=order), 'the stored bytes are not those of the array')
    expect_eq(f.metadata.get('container'), 'numpy', 'metadata container')
    expect_eq(f.metadata.get('shape'), list(a.shape), 'metadata shape')
    expect_eq(f.metadata.get('order'), order, 'metadata order')


# ------------------------------------------------ positions beyond 32 bits

class SparseFile(object):
    """A write-only file that keeps small writes and only counts large ones."""

    def __init__(self):
        self.pos = 0
        self.writes = []
        self.heads = {}

    def write(self, b):
        b = bytes(b) if len(b) < 4096 else b
        if len(b) < 4096:
            self.writes.append((self.pos, b))
        else:
            self.heads[self.pos] = bytes(b[:16])
        self.pos += len(b)
        return len(b)

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        assert whence == 0
        self.pos = off
        return off


def check_large(c, ctx):
    """Offsets of chunks stored beyond 2 and 4 GiB (nothing is kept)."""
    chunk, n, last = c['chunk'], c['n'], c['last']
    block = bytes(chunk)

    class Source(api.abstract_io.PlainSource):
        def __iter__(self):
            for i in range(self.nchunks - 1):
                yield block
            yield block[:self.last_chunk]
    fp = SparseFile()
    ctx.nontrivial()
    with must_succeed('packing'):
        api.abstract_io.pack(Source(), api.file_io.CompressedFPSink(fp), n, chunk, last,
                             blosc_args=api.bp.BloscArgs(clevel=0),
                             bloscpack_args=api.bp.BloscpackArgs(checksum='None', max_app_chunks=3))
    size = 32 + 8 * (n + 3) + chunk * (n - 1) + last + 16 * n
    offs = bytearray(8 * (n + 3))
    head = b''
    for p, b in fp.writes:
        if p == 0:
            head = b[:32]
        if 32 <= p < 32 + len(offs):
            offs[p - 32:p - 32 + len(b)] = b
    h = ref.Header(head)
    expect_eq((h.nchunks, h.chunk_size, h.last_chunk), (n, chunk, last), 'header')
    got = struct.unpack('<%dq' % (n + 3), bytes(offs))
    want = tuple(32 + 8 * (n + 3) + i * (chunk + 16) for i in range(n)) + (-1,) * 3
    expect_eq(got, want, 'offsets in a file of %d bytes' % size)
    for o in want[:n - 1]:
        expect(o in fp.heads, 'no chunk was written at its offset %d', o)


# ------------------------------------------------ reserved entries and counts at boundaries

def grid_cases(tier):
    writers = sorted(api.WRITERS)
    k = 0
    top = 2 ** 16 + 1 if tier == 'quick' else 2 ** 19 + 1
    # reserved offsets
    for m in sorted(set(range(0, 300)) | set(words.around(0, top))):
        for n in (1, 2, 3, 10):
            if m > 20000 and n > 1 and m not in words.novel():
                continue
            k += 1
            yield {'cs': 3, 'n': n, 'last': 1 + k % 3, 'app': m, 'meta': k % 3 == 0, 'ck': k % len(gen.CHECKSUMS),
                   'writer': writers[k % len(writers)], 'call': k % 2}
    # chunk counts
    for n in sorted(set(range(1, 260)) | set(words.around(1, 5000 if tier == 'quick' else 200000))):
        for app in (None, 0, 5):
            k += 1
            if n > 3000 and app is None:
                continue
            yield {'cs': 2, 'n': n, 'last': 1 + k % 2, 'app': app, 'meta': k % 3 == 0,
                   'ck': k % len(gen.CHECKSUMS), 'writer': writers[k % len(writers)], 'call': 0}
    # chunk sizes
    for cs in words.around(1, 2 ** 20 + 1 if tier == 'quick' else 2 ** 26):
        k += 1
        yield {'cs': cs, 'n': 3, 'last': max(1, cs // 2), 'app': k % 4, 'meta': k % 3 == 0,
               'ck': k % len(gen.CHECKSUMS), 'writer': writers[k % len(writers)], 'call': 0}


def check_grid(c, ctx):
    size = c['cs'] * (c['n'] - 1) + c['last']
    data = gen.make_data({'size': size, 'kind': 'near' if size % 3 == 2 else 'rnd', 'seed': 1, 'period': c['cs']})
    bpspec = {'offsets': True, 'checksum': gen.CHECKSUMS[c['ck']]}
    if c['app'] is not None:
        bpspec['max_app'] = {'const' if c['call'] else 'int': c['app']}
    ctx.nontrivial()
    with must_succeed('packing with %s' % c['writer']):
        packed = api.WRITERS[c['writer']](
            ctx, data, chunk_size=c['cs'], metadata={'a': 'b' * 40} if c['meta'] else None,
            blosc_args=gen.make_blosc_args({'clevel': 1, 'typesize': 1}),
            bloscpack_args=gen.make_bloscpack_args(bpspec))
    f = conform(packed)
    expect_eq(f.data, data, 'data stored in the file')
    check_header(f, size, c['cs'], bpspec, 1, c['meta'])


PARTS = [
    Enum('grid', grid_cases, check_grid,
         'reserved offsets (every count to 300, then powers of two, of ten and literals of the code with '
         'neighbours to 65537, thorough 2^19), chunk counts and chunk sizes likewise; all non-trivial'),
    Gen('bytes', cases(), check, 2600, 60000,
        'random content x chunking x arguments x metadata x entry points, parsed strictly by the '
        'reference parser; non-trivial: more than one chunk'),
    Gen('ndarray', nd_cases(), check_nd, 1200, 30000,
        'random arrays x arguments x entry points; non-trivial: more than one chunk'),
    Enum('large', [{'chunk': 2 ** 29, 'n': 10, 'last': 77}, {'chunk': 2 ** 30 - 1, 'n': 6, 'last': 2 ** 29}],
         check_large, 'files of more than 4 GiB written to a sparse sink', tier='thorough'),
]
