"""C21: sources and sinks are interchangeable."""
import io
import itertools
import json

import blosc
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

aio, fio, mio, nio = api.abstract_io, api.file_io, api.memory_io, api.numpy_io

ASSUMPTIONS = ['blosc itself compresses deterministically with one thread',
               'packing an array with the core function needs the typesize of its items, as pack_ndarray arranges']

DTYPES = ['i1', '<i2', '>u4', '<f8', 'S3', '<c16', 'V5']


@st.composite
def cases(draw):
    dt = draw(st.sampled_from(DTYPES))
    it = np.dtype(dt).itemsize
    items = draw(gen.weighted((1, st.integers(0, 3)), (6, st.integers(1, 300)), (1, st.integers(1000, 20000))))
    lo = max(1, items // 40)
    cs = st.integers(lo, max(lo, items + 2)).map(lambda k: k * it)
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        bl = draw(gen.blosc_spec()) or {}
        steps.append({'chunk': draw(cs), 'blosc': dict(bl, typesize=it), 'bp': draw(gen.bloscpack_spec()),
                      'margs': draw(gen.metadata_args_spec()),
                      # which of the possible ways the chain goes on from here
                      'via': draw(st.integers(0, 1)), 'to': draw(st.integers(0, 3))})
    return {'dtype': dt, 'data': draw(gen.data_of_size(items * it, period=steps[0]['chunk'])), 'steps': steps,
            'extra': draw(gen.metadata_spec(allow_none=False)), 'damage': draw(st.integers(0, 3)),
            'level': draw(st.sampled_from(['NORMAL'] * 6 + ['DEBUG']))}


def split(data, n, cs, last):
    return [data[i * cs:(i + 1) * cs] for i in range(n)]


def plain_sources(data, dt, n, cs, last):
    chunks = split(data, n, cs, last)
    return [('file object', lambda: fio.PlainFPSource(io.BytesIO(data))),
            ('memory chunks', lambda: mio.PlainMemorySource(chunks)),
            ('memory tuple', lambda: mio.PlainMemorySource(tuple(chunks))),
            ('memory iterator', lambda: mio.PlainMemorySource(iter(chunks))),
            ('memory generator', lambda: mio.PlainMemorySource(x for x in chunks)),
            ('array', lambda: nio.PlainNumpySource(np.frombuffer(data, np.dtype(dt))))]


def args(s):
    return {'blosc_args': gen.make_blosc_args(s['blosc']), 'bloscpack_args': gen.make_bloscpack_args(s['bp']),
            'metadata_args': gen.make_metadata_args(s['margs'])}


def check_step(data, dt, meta, s, ctx, what):
    """Packs from everything to everything, then unpacks the same way."""
    n, cs, last = ref.partition(len(data), s['chunk'])
    chunks = split(data, n, cs, last)
    want_meta = json.loads(json.dumps(meta))
    ebp = gen.effective_bloscpack(s['bp'])
    stored = None
    files, mems = [], []
    for name, make in plain_sources(data, dt, n, cs, last):
        w = '%s, %s' % (what, name)
        with must_succeed('packing (%s)' % w):
            out = io.BytesIO()
            aio.pack(make(), fio.CompressedFPSink(out), n, cs, last, metadata=meta, **args(s))
            mem = mio.CompressedMemorySink()
            aio.pack(make(), mem, n, cs, last, metadata=meta, **args(s))
        try:
            f = ref.parse(out.getvalue())
        except ref.RefError as e:
            expect(False, '%s: the file does not conform: %s', w, e)
        expect_eq(f.parts, chunks, '%s: chunks in the file' % w)
        expect(ref.strict_eq(f.metadata, want_meta), '%s: metadata %r instead of %r', w, f.metadata, want_meta)
        expect_eq(f.header.checksum, ebp['checksum'], '%s: checksum' % w)
        expect_eq(list(mem.chunks), [c.compressed for c in f.chunks], '%s: chunks in memory and in the file' % w)
        expect(ref.strict_eq(json.loads(json.dumps(mem.metadata)), want_meta), '%s: metadata %r in memory', w,
               mem.metadata)
        digests = list(mem.checksums) if mem.checksum != 'None' and ebp['checksum'] != 'None' else None
        if ebp['checksum'] != 'None':
            expect_eq(digests, [c.digest for c in f.chunks], '%s: digests in memory and in the file' % w)
        expect_eq(mem.nchunks, n, '%s: number of chunks in memory' % w)
        h = mem.bloscpack_header
        expect_eq((h.nchunks, h.chunk_size, h.last_chunk, h.checksum, h.typesize, bool(h.metadata)),
                  (f.header.nchunks, f.header.chunk_size, f.header.last_chunk, f.header.checksum, f.header.typesize,
                   bool(f.header.metadata)), '%s: header in memory and in the file' % w)
        if stored is None:
            stored = out.getvalue()
        else:
            expect_eq(out.getvalue(), stored, '%s: file compared to the one from a file object' % w)
        files.append(out.getvalue())
        mems.append(mem)
    return n, chunks, files[-1], mems


def compressed_sources(raw, mem):
    return [('file object', lambda: fio.CompressedFPSource(io.BytesIO(raw))),
            ('memory', lambda: mio.CompressedMemorySource(mem))]


def into_all(make, n, chunks, data, dt, want_meta, what):
    """Unpacks into every plain sink; returns the results as sources."""
    with must_succeed('unpacking (%s)' % what):
        src = make()
        expect_eq(src.nchunks, n, '%s: number of chunks' % what)
        expect(ref.strict_eq(json.loads(json.dumps(src.metadata)), want_meta), '%s: metadata %r instead of %r', what,
               src.metadata, want_meta)
        fp = io.BytesIO()
        aio.unpack(src, fio.PlainFPSink(fp))
        fp2 = io.BytesIO()
        aio.unpack(make(), fio.PlainFPSink(fp2, nchunks=n))
        lst, fixed = mio.PlainMemorySink(), mio.PlainMemorySink(n)
        aio.unpack(make(), lst)
        aio.unpack(make(), fixed)
        src = make()
        nd = nio.PlainNumpySink(src.metadata)
        aio.unpack(src, nd)
        whole = nio.unpack_ndarray(make())
    expect_eq(fp.getvalue(), data, '%s to a file object' % what)
    expect_eq(fp2.getvalue(), data, '%s to a file object with a number of chunks' % what)
    expect_eq(list(lst.chunks), chunks, '%s to memory' % what)
    expect_eq(list(fixed.chunks), chunks, '%s to memory of fixed size' % what)
    for a in (nd.ndarray, whole):
        expect_eq((a.dtype.str, a.tobytes()), (np.dtype(dt).str, data), '%s to an array' % what)
    return [fp.getvalue(), b''.join(lst.chunks), b''.join(fixed.chunks), nd.ndarray.tobytes()]


def check(c, ctx):
    blosc.set_nthreads(1)
    data = gen.make_data(c['data'])
    dt = c['dtype']
    a = np.frombuffer(data, np.dtype(dt))
    ctx.label(dt, 'chain' if len(c['steps']) > 1 else None, 'empty' if not data else None, c['level'])
    api.bp_log.LEVEL = c['level']
    try:
        meta = nio.PlainNumpySource(a).metadata
        meta = dict(meta, extra=gen.make_metadata(c['extra']))
        for i, s in enumerate(c['steps']):
            n, chunks, raw, mems = check_step(data, dt, meta, s, ctx, 'step %d' % i)
            ctx.nontrivial(n > 1)
            mem = mems[c['damage'] % len(mems)]
            want_meta = json.loads(json.dumps(meta))
            res = []
            for name, make in compressed_sources(raw, mem):
                res.append(into_all(make, n, chunks, data, dt, want_meta, 'step %d, from %s' % (i, name)))
                with must_succeed('a source'):
                    got = make().metadata
                if s['via'] == len(res) - 1:
                    meta = got
            data = res[s['via']][s['to']]
        damage(c, c['steps'][-1], raw, mem, ctx)
    finally:
        api.bp_log.LEVEL = 'NORMAL'


def damage(c, s, raw, mem, ctx):
    """A memory source verifies what it holds like a file does."""
    if gen.effective_bloscpack(s['bp'])['checksum'] == 'None' or not c['damage']:
        return
    ctx.label('damaged')
    k = c['damage'] % len(mem.chunks)
    if c['damage'] % 2:
        mem.checksums[k] = bytes([mem.checksums[k][0] ^ 1]) + mem.checksums[k][1:]
    else:
        mem.chunks[k] = mem.chunks[k][:-1] + bytes([mem.chunks[k][-1] ^ 16])
    with refused('unpacking a damaged memory chunk', exc.ChecksumMismatch):
        aio.unpack(mio.CompressedMemorySource(mem), mio.PlainMemorySink())


# ------------------------------------------------------------ reuse of memory objects

@st.composite
def reuse_cases(draw):
    it = 4
    packs = []
    for _ in range(draw(st.integers(2, 4))):
        items = draw(st.integers(0, 120))
        packs.append({'data': draw(gen.data_of_size(items * it)), 'chunk': it * draw(st.integers(max(1, items // 20), items + 1)),
                      'blosc': dict(draw(gen.blosc_spec()) or {}, typesize=it), 'bp': draw(gen.bloscpack_spec()),
                      'margs': draw(gen.metadata_args_spec()), 'meta': draw(gen.metadata_spec()),
                      'nd': draw(st.booleans())})
    return packs


def check_reuse(packs, ctx):
    """One memory sink takes several packings; a source can be read again."""
    blosc.set_nthreads(1)
    sink = mio.CompressedMemorySink()
    for i, p in enumerate(packs):
        data, meta = gen.make_data(p['data']), gen.make_metadata(p['meta'])
        n, cs, last = ref.partition(len(data), p['chunk'])
        chunks = split(data, n, cs, last)
        plain = mio.PlainMemorySource(chunks)
        with must_succeed('packing %d into one memory sink' % i):
            if p['nd']:
                a = np.frombuffer(data, '<i4')
                nio.pack_ndarray(a, sink, chunk_size=p['chunk'], **args(p))
                meta = nio.PlainNumpySource(a).metadata
            else:
                aio.pack(plain, sink, n, cs, last, metadata=meta, **args(p))
        ctx.label('array' if p['nd'] else 'chunks', 'no metadata' if meta is None else None)
        ctx.nontrivial(i > 0 and n > 1)
        with must_succeed('unpacking packing %d of one memory sink' % i):
            src = mio.CompressedMemorySource(sink)
            got = src.metadata
            for again in range(2):
                out = mio.PlainMemorySink(n)
                aio.unpack(src, out)
                expect_eq(list(out.chunks), chunks, 'packing %d, reading %d' % (i, again))
            if not p['nd']:
                # a memory source can be packed more than once
                raw = [io.BytesIO(), io.BytesIO()]
                for fp in raw:
                    aio.pack(plain, fio.CompressedFPSink(fp), n, cs, last, metadata=meta, **args(p))
                expect_eq(raw[1].getvalue(), raw[0].getvalue(), 'packing a memory source again')
        expect(ref.strict_eq(json.loads(json.dumps(got)), json.loads(json.dumps(meta))),
               'packing %d: metadata %r instead of %r', i, got, meta)


# ------------------------------------------------------------ user-defined sources and sinks

@st.composite
def custom_cases(draw):
    p = draw(gen.plan(big=False, strings=False))
    return {'plan': p, 'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
            'meta': draw(gen.metadata_spec()), 'margs': draw(gen.metadata_args_spec()),
            'cuts': draw(st.lists(st.one_of(st.sampled_from([0, 1, 2, 10 ** 6 - 1]), st.integers(0, 10 ** 6)), max_size=5))}


class Gather(aio.CompressedSink):
    """A compressed sink of a user: notes what it is told."""

    def __init__(self):
        self.calls = []

    def write_bloscpack_header(self):
        self.calls.append(('header', self.bloscpack_header.encode()))

    def write_metadata(self, metadata, metadata_args):
        self.calls.append(('metadata', metadata))

    def init_offsets(self):
        self.calls.append(('offsets',))

    def finalize(self):
        self.calls.append(('finalize',))

    def put(self, i, compressed):
        self.calls.append(('put', i, compressed, self.do_checksum(compressed)))


class Lines(aio.PlainSource):
    """A plain source of a user, from a generator."""

    def __init__(self, data):
        self.data = data

    def __iter__(self):
        for i in range(self.nchunks):
            size = self.last_chunk if i == self.nchunks - 1 else self.chunk_size
            yield self.data[i * self.chunk_size:i * self.chunk_size + size]


class Replay(aio.CompressedSource):
    """A compressed source of a user."""

    def __init__(self, impl, pairs):
        self.checksum_impl, self.pairs, self.nchunks, self.metadata = impl, pairs, len(pairs), None

    def __iter__(self):
        return iter(self.pairs)


class Join(aio.PlainSink):
    def __init__(self):
        self.parts = []

    def put(self, compressed):
        self.parts.append(blosc.decompress(compressed))
        return len(self.parts[-1])


def check_custom(c, ctx):
    blosc.set_nthreads(1)
    data = gen.make_data(c['plan']['data'])
    n, cs, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    meta = gen.make_metadata(c['meta'])
    ebp = gen.effective_bloscpack(c['bp'])
    with must_succeed('packing from and to objects of a user'):
        sink = Gather()
        aio.pack(Lines(data), sink, n, cs, last, metadata=meta, **args(c))
        out = io.BytesIO()
        aio.pack(Lines(data), fio.CompressedFPSink(out), n, cs, last, metadata=meta, **args(c))
        want = io.BytesIO()
        aio.pack(fio.PlainFPSource(io.BytesIO(data)), fio.CompressedFPSink(want), n, cs, last, metadata=meta, **args(c))
    ctx.nontrivial(n > 1)
    expect_eq(out.getvalue(), want.getvalue(), 'file packed from a source of a user')
    f = ref.parse(want.getvalue())
    calls = list(sink.calls)
    expect_eq(calls.pop(0), ('header', f.raw[:32]), 'first call of the sink')
    if meta is not None:
        expect_eq(calls.pop(0), ('metadata', meta), 'call for the metadata')
    if ebp['offsets'] or calls[0] == ('offsets',):
        expect_eq(calls.pop(0), ('offsets',), 'call before the chunks')
    expect_eq(calls.pop(), ('finalize',), 'last call of the sink')
    none = ref.digest('None', b'')
    expect_eq([(k[0], k[1], k[2], k[3] or none) for k in calls],
              [('put', i, x.compressed, x.digest) for i, x in enumerate(f.chunks)], 'chunks given to the sink')
    impl = sink.checksum_impl
    pairs = [(k[2], k[3]) for k in calls]
    with must_succeed('unpacking from and to objects of a user'):
        join = Join()
        aio.unpack(Replay(impl, pairs), join)
        mem = mio.PlainMemorySink()
        aio.unpack(Replay(impl, pairs), mem)
        join2 = Join()
        aio.unpack(fio.CompressedFPSource(io.BytesIO(want.getvalue())), join2)
    parts = split(data, n, cs, last)
    expect_eq(join.parts, parts, 'chunks of a source of a user')
    expect_eq(list(mem.chunks), parts, 'chunks of a source of a user in memory')
    expect_eq(join2.parts, parts, 'chunks in a sink of a user')
    # chunks of any sizes, also empty ones
    cuts = sorted(k % (len(data) + 1) for k in c['cuts'])
    parts = [data[i:j] for i, j in zip([0] + cuts, cuts + [len(data)])]
    pairs2 = [(blosc.compress(x, typesize=1), none) for x in parts]
    if ebp['checksum'] != 'None':
        pairs2 = [(x, ref.digest(ebp['checksum'], x)) for x, _ in pairs2]
    with must_succeed('unpacking chunks of %r bytes from a source of a user' % [len(x) for x in parts]):
        lst, fixed, fp, join = mio.PlainMemorySink(), mio.PlainMemorySink(len(parts)), io.BytesIO(), Join()
        for sink in (lst, fixed, fio.PlainFPSink(fp), join):
            aio.unpack(Replay(impl, pairs2), sink)
    expect_eq(join.parts, parts, 'uneven chunks in a sink of a user')
    expect_eq(list(lst.chunks), parts, 'uneven chunks in memory')
    expect_eq(list(fixed.chunks), parts, 'uneven chunks in memory of fixed size')
    expect_eq(fp.getvalue(), data, 'uneven chunks in a file object')
    if ebp['checksum'] != 'None':
        k = len(data) % n
        bad = list(pairs)
        bad[k] = (bad[k][0], bad[k][1][:-1] + bytes([bad[k][1][-1] ^ 1]))
        with refused('a wrong digest from a source of a user', exc.ChecksumMismatch):
            aio.unpack(Replay(impl, bad), Join())


# ------------------------------------------------------------ objects of the wrong kind

SOURCES = ['PlainFPSource', 'PlainMemorySource', 'PlainNumpySource', 'CompressedFPSource', 'CompressedMemorySource',
           'None', 'BytesIO', 'bytes', 'list', 'str', 'ndarray', 'class', 'PlainFPSink', 'PlainMemorySink',
           'CompressedFPSink', 'CompressedMemorySink', 'object', 'subclass']
SINKS = ['PlainFPSink', 'PlainMemorySink', 'PlainNumpySink', 'CompressedFPSink', 'CompressedMemorySink', 'None', 'BytesIO',
         'list', 'str', 'class', 'compressed class', 'PlainFPSource', 'CompressedFPSource', 'PlainMemorySource',
         'object', 'subclass', 'compressed subclass']
DATA = b'0123456789ab'


def kinds_cases(tier):
    return [{'fn': fn, 'source': a, 'sink': b} for fn, a, b in itertools.product(['pack', 'unpack'], SOURCES, SINKS)]


class Duck(object):
    """Has everything but the right type."""
    nchunks, metadata, checksum_impl = 1, None, None

    def configure(self, *a):
        raise AssertionError('configured')

    put = write_bloscpack_header = write_metadata = init_offsets = finalize = configure

    def __iter__(self):
        raise AssertionError('read')


def check_kinds(c, ctx):
    packed = api.bp.pack_ndarray_to_bytes(np.frombuffer(DATA, 'i1'))
    mem = mio.CompressedMemorySink()
    nio.pack_ndarray(np.frombuffer(DATA, 'i1'), mem)
    touched = io.BytesIO()
    reads = io.BytesIO(DATA)
    packs = io.BytesIO(packed)
    arr = np.frombuffer(DATA, 'i1')

    def build(k, source):
        return {'PlainFPSource': lambda: fio.PlainFPSource(reads), 'PlainMemorySource': lambda: mio.PlainMemorySource([DATA]),
                'PlainNumpySource': lambda: nio.PlainNumpySource(arr), 'CompressedFPSource': lambda: fio.CompressedFPSource(packs if source else io.BytesIO(packed)),
                'CompressedMemorySource': lambda: mio.CompressedMemorySource(mem), 'None': lambda: None,
                'BytesIO': lambda: reads if source else touched, 'bytes': lambda: DATA, 'list': lambda: [DATA],
                'str': lambda: ctx.path('name'), 'ndarray': lambda: arr,
                'class': lambda: (fio.PlainFPSource if c['fn'] == 'pack' else fio.CompressedFPSource) if source else
                fio.PlainFPSink,
                'compressed class': lambda: fio.CompressedFPSink,
                'PlainFPSink': lambda: fio.PlainFPSink(touched), 'PlainMemorySink': lambda: mio.PlainMemorySink(),
                'PlainNumpySink': lambda: nio.PlainNumpySink(mem.metadata),
                'CompressedFPSink': lambda: fio.CompressedFPSink(touched),
                'CompressedMemorySink': lambda: mio.CompressedMemorySink(), 'object': Duck,
                'subclass': lambda: (Lines(DATA) if c['fn'] == 'pack' else Replay(mem.checksum_impl, [])) if source else Join(),
                'compressed subclass': Gather}[k]()
    source, sink = build(c['source'], True), build(c['sink'], False)
    pos = reads.tell(), packs.tell()
    plain_source = c['source'] in ('PlainFPSource', 'PlainMemorySource', 'PlainNumpySource') or \
        (c['source'] == 'subclass' and c['fn'] == 'pack')
    comp_source = c['source'] in ('CompressedFPSource', 'CompressedMemorySource') or \
        (c['source'] == 'subclass' and c['fn'] == 'unpack')
    plain_sink = c['sink'] in ('PlainFPSink', 'PlainMemorySink', 'PlainNumpySink', 'subclass')
    comp_sink = c['sink'] in ('CompressedFPSink', 'CompressedMemorySink', 'compressed subclass')
    fits = plain_source and comp_sink if c['fn'] == 'pack' else comp_source and plain_sink

    def go():
        if c['fn'] == 'pack':
            aio.pack(source, sink, 1, len(DATA), len(DATA), blosc_args=api.bp.BloscArgs(typesize=1))
        else:
            aio.unpack(source, sink)
    ctx.nontrivial(not fits)
    ctx.label(c['fn'], 'fits' if fits else 'wrong kind')
    if fits:
        with must_succeed('%s from %s to %s' % (c['fn'], c['source'], c['sink'])):
            go()
        return
    with refused('%s from %s to %s' % (c['fn'], c['source'], c['sink']), TypeError):
        go()
    expect_eq(touched.getvalue(), b'', '%s from %s to %s: written although refused' % (c['fn'], c['source'], c['sink']))
    expect_eq((reads.tell(), packs.tell()), pos, '%s from %s to %s: position of the input although refused' % (
        c['fn'], c['source'], c['sink']))


# ------------------------------------------------------------ sizes and counts at boundaries

def grid_cases(tier):
    k = 0
    for n in sorted(set(range(1, 30)) | set(words.around(30, 700 if tier == 'quick' else 20000))):
        k += 1
        yield {'items': 2 * n - k % 2, 'per': 2, 'k': k}
    for per in words.around(1, 2 ** 18 if tier == 'quick' else 2 ** 23):
        k += 1
        yield {'items': 2 * per + per // 2, 'per': per, 'k': k}


def check_grid(c, ctx):
    blosc.set_nthreads(1)
    k = c['k']
    dt = DTYPES[k % len(DTYPES)]
    it = np.dtype(dt).itemsize
    size = c['items'] * it
    data = gen.make_data({'size': size, 'kind': ('rnd', 'near', 'few')[k % 3], 'seed': k,
                          'period': c['per'] * it})
    s = {'chunk': c['per'] * it, 'blosc': {'typesize': it, 'clevel': k % 4}, 'margs': None,
         'bp': {'offsets': bool(k % 3), 'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)], 'max_app': {'int': k % 5}}}
    meta = dict(nio.PlainNumpySource(np.frombuffer(data, np.dtype(dt))).metadata)
    n, chunks, raw, mems = check_step(data, dt, meta, s, ctx, '%d chunks of %d bytes' % (-(-c['items'] // c['per']), s['chunk']))
    ctx.nontrivial(n > 1)
    for name, make in compressed_sources(raw, mems[k % len(mems)]):
        into_all(make, n, chunks, data, dt, json.loads(json.dumps(meta)), 'from ' + name)


PARTS = [
    Enum('kinds', kinds_cases, check_kinds,
         'pack and unpack on all pairs of objects of all kinds; non-trivial: at least one of the wrong kind'),
    Enum('grid', grid_cases, check_grid,
         'chunk counts and chunk sizes at powers of two, of ten and literals of the code with neighbours, everything '
         'into everything and back; non-trivial: more than one chunk'),
    Gen('chains', cases(), check, 1500, 50000,
        'all sources into all sinks and back, going on from one of the results with other arguments; '
        'non-trivial: more than one chunk'),
    Gen('reuse', reuse_cases(), check_reuse, 800, 20000,
        'one memory sink for several packings, sources read twice; non-trivial: a later packing with several chunks'),
    Gen('custom', custom_cases(), check_custom, 600, 20000,
        'sources and sinks derived from the abstract classes; non-trivial: more than one chunk'),
]
