"""C07: incomplete or inconsistent content never passes for the complete data."""
import io
import json

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, ndgen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused

ASSUMPTIONS = ['a proper prefix of a packed file always lacks part of its last chunk or digest']


def boundaries(f):
    out = {0, 1, 4, 16, 31, 32, 33, 63, 64, f.meta_end, f.offsets_pos, f.data_pos}
    for c in f.chunks[:3] + f.chunks[-3:]:
        e = c.pos + len(c.compressed)
        out.update([c.pos, c.pos + 1, c.pos + 15, c.pos + 16, c.pos + 17, e - 1, e, e + 1,
                    e + len(c.digest) - 1, e + len(c.digest)])
    if f.meta_header is not None:
        m = f.meta_header
        out.update([64 + m.comp_size - 1, 64 + m.comp_size, 64 + m.max_size, 64 + m.max_size + 1])
    if f.header.offsets:
        out.update([f.offsets_pos + 8 * k + r for k in range(0, min(4, f.header.nchunks)) for r in (1, 8)])
        out.update([f.offsets_pos + 8 * f.header.nchunks, f.data_pos - 1, f.data_pos - 8])
    return sorted(x for x in out if 0 <= x < len(f.raw))


def parse(packed):
    try:
        return ref.parse(packed, strict=False)
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)


def region(f, cut):
    if cut < 32:
        return 'header'
    if cut < f.meta_end:
        return 'metadata'
    if cut < f.data_pos:
        return 'offsets'
    for c in f.chunks:
        if cut == c.pos:
            return 'chunk boundary'
        if cut < c.pos + len(c.compressed):
            return 'chunk'
        if cut < c.pos + len(c.compressed) + len(c.digest):
            return 'digest missing' if cut == c.pos + len(c.compressed) else 'digest'
    return 'end'


@st.composite
def cases(draw):
    array = draw(st.integers(0, 3)) == 0
    c = {'array': array, 'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
         'cut': draw(st.one_of(st.integers(0, 60), st.integers(0, 10 ** 7))),
         'at': draw(st.sampled_from(['boundary', 'boundary', 'any', 'end']))}
    if array:
        c['a'] = draw(ndgen.array_spec(max_items=200, depth=1))
        c['items'] = draw(st.integers(1, 60))
        c['reader'] = draw(st.sampled_from(sorted(api.ND_READERS)))
    else:
        c['plan'] = draw(gen.plan(big=False, max_chunks=8))
        c['meta'] = draw(gen.metadata_spec())
        c['margs'] = draw(gen.metadata_args_spec())
        c['reader'] = draw(st.sampled_from(sorted(api.READERS)))
    return c


def check(c, ctx):
    with must_succeed('packing'):
        if c['array']:
            a = ndgen.make_array(c['a'])
            packed = api.bp.pack_ndarray_to_bytes(
                a, chunk_size=a.itemsize * c['items'], blosc_args=gen.make_blosc_args(c['blosc']),
                bloscpack_args=gen.make_bloscpack_args(c['bp']))
        else:
            packed = api.bp.pack_bytes_to_bytes(
                gen.make_data(c['plan']['data']), metadata=gen.make_metadata(c['meta']),
                metadata_args=gen.make_metadata_args(c['margs']),
                blosc_args=gen.make_blosc_args(c['blosc']),
                bloscpack_args=gen.make_bloscpack_args(c['bp']), **gen.chunk_kw(c['plan']))
    f = parse(packed)
    if c['at'] == 'boundary':
        b = boundaries(f)
        cut = b[c['cut'] % len(b)]
    elif c['at'] == 'end':
        cut = len(packed) - 1 - c['cut'] % min(len(packed), 200)
    else:
        cut = c['cut'] % len(packed)
    reg = region(f, cut)
    ctx.label('cut in ' + reg, c['reader'], 'no checksum' if f.header.checksum == 'None' else None)
    ctx.nontrivial(cut >= 32)
    readers = api.ND_READERS if c['array'] else api.READERS
    with refused('prefix of %d of %d bytes (%s) read by %s' % (cut, len(packed), reg, c['reader'])):
        readers[c['reader']](ctx, packed[:cut])


# --------------------------------------------------- all prefixes of small files

CONFIGS = []
for _ck in ('None', 'adler32', 'md5'):
    for _off in (False, True):
        for _meta in (None, {'a': [1, 2]}):
            for _size, _chunk in ((0, 5), (9, 20), (30, 10), (300, 128)):
                CONFIGS.append({'ck': _ck, 'off': _off, 'meta': _meta, 'size': _size, 'chunk': _chunk})


def small_file(k):
    c = CONFIGS[k]
    return api.bp.pack_bytes_to_bytes(
        bytes((i * i) % 251 for i in range(c['size'])), chunk_size=c['chunk'], metadata=c['meta'],
        metadata_args=api.bp.MetadataArgs(meta_checksum=c['ck']) if c['meta'] else None,
        bloscpack_args=api.bp.BloscpackArgs(checksum=c['ck'], offsets=c['off'], max_app_chunks=1))


def all_prefixes(tier):
    return [{'config': k, 'seg': s} for k in range(len(CONFIGS)) for s in range(4)]


def check_prefixes(c, ctx):
    with must_succeed('packing'):
        packed = small_file(c['config'])
    names = sorted(api.READERS)
    ctx.nontrivial()
    for cut in range(c['seg'], len(packed), 4):
        for r in ('unpack_bytes_from_bytes', names[cut % len(names)]):
            with refused('prefix of %d of %d bytes read by %s' % (cut, len(packed), r)):
                api.READERS[r](ctx, packed[:cut])


def no_chunk_cases(tier):
    for meta in (None, {}, {'a': 1}, {'a': [1, 'x' * 40]}, 'x' * 300):
        for offsets in (True, False):
            for app in (0, 1, 3):
                for ck in gen.CHECKSUMS:
                    yield {'meta': meta, 'offsets': offsets, 'app': app, 'ck': ck}


def check_no_chunks(c, ctx):
    """No chunk at all: the data are complete (empty) once header and metadata are."""
    meta = None
    if c['meta'] is not None:
        meta = {'raw': json.dumps(c['meta']).encode(), 'checksum': c['ck']}
    args = dict(checksum=c['ck'], meta=meta, chunk_size=0, last_chunk=0)
    whole = ref.encode_file([], offsets='exact' if c['offsets'] else None,
                            max_app=c['app'] if c['offsets'] else 0, **args)
    start = len(ref.encode_file([], offsets=None, **args))
    ctx.nontrivial()
    names = sorted(api.READERS)
    for cut in range(start):
        for r in ('unpack_bytes_from_bytes', names[cut % len(names)]):
            with refused('prefix of %d bytes of a file without chunks read by %s' % (cut, r)):
                api.READERS[r](ctx, whole[:cut])


# --------------------------------------------------- array description vs. stored bytes

@st.composite
def mismatch_cases(draw):
    a = draw(ndgen.array_spec(max_items=120, depth=1))
    a['layout'] = 'C'
    return {'a': a, 'delta': draw(st.one_of(st.integers(-400, 400), st.sampled_from([-1, 1, -8, 8, 5000, 10 ** 6]))),
            'how': draw(st.sampled_from(['bytes', 'bytes', 'shape', 'dtype', 'append', 'drop chunk',
                                         'extra chunk', 'memory'])),
            'cuts': draw(st.lists(st.integers(0, 10 ** 6), max_size=4)),
            'dtype': draw(st.sampled_from(['i1', '<i2', '<f8', '<c16', 'V3'])),
            'ck': draw(st.sampled_from(['None', 'adler32'])),
            'reader': draw(st.sampled_from(sorted(api.ND_READERS)))}


def check_mismatch(c, ctx):
    a = ndgen.make_array(c['a'])
    dt = a.dtype
    raw = a.tobytes()
    shape, descr = list(a.shape), repr(dt.str if dt.names is None else dt.descr)
    need = len(raw)
    if c['how'] == 'bytes' or c['how'] == 'memory':
        n = max(0, len(raw) + c['delta'])
        raw = (raw + b'\xa5' * 10 ** 6)[:n]
    elif c['how'] == 'shape':
        if not shape:
            shape = [2]
        else:
            k = c['delta'] % len(shape)
            shape[k] = max(0, shape[k] + (c['delta'] % 5) - 2)
        need = int(np.prod(shape, dtype='i8')) * dt.itemsize
    elif c['how'] == 'dtype':
        descr = repr(np.dtype(c['dtype']).str)
        need = int(np.prod(shape, dtype='i8')) * np.dtype(c['dtype']).itemsize
    cuts = sorted(set(x % (len(raw) + 1) for x in c['cuts']))
    bounds = [0] + cuts + [len(raw)]
    parts = [raw[i:j] for i, j in zip(bounds, bounds[1:])]
    if c['how'] == 'drop chunk':
        parts.pop(c['delta'] % len(parts))
    elif c['how'] == 'extra chunk':
        parts.insert(c['delta'] % (len(parts) + 1), bytes(1 + abs(c['delta']) % 100))
    chunks = [api.blosc.compress(p, typesize=1) for p in parts]
    meta = {'dtype': descr, 'shape': shape, 'order': 'C', 'container': 'numpy'}
    have = sum(map(len, parts))
    if c['how'] == 'append':
        with must_succeed('packing'):
            t = io.BytesIO(api.bp.pack_ndarray_to_bytes(
                a, bloscpack_args=api.bp.BloscpackArgs(max_app_chunks=200)))
        extra = 1 + abs(c['delta']) % 100
        with must_succeed('appending to an array file'):
            api.append_mod.append_fp(t, io.BytesIO(bytes(extra)), extra)
        have += extra
        packed = t.getvalue()
    elif c['how'] == 'memory':
        sink = api.memory_io.CompressedMemorySink()
        with must_succeed('packing to memory'):
            api.abstract_io.pack(api.memory_io.PlainMemorySource(parts), sink, len(parts), -1, -1,
                                 metadata=meta, bloscpack_args=api.bp.BloscpackArgs(checksum=c['ck']))
    else:
        packed = ref.encode_file(chunks, checksum=c['ck'], offsets=None,
                                 meta={'raw': json.dumps(meta).encode()})
    ctx.label(c['how'], 'too long' if have > need else 'too short' if have < need else 'fits')
    ctx.nontrivial(have != need)

    def read():
        if c['how'] == 'memory':
            return api.numpy_io.unpack_ndarray(api.memory_io.CompressedMemorySource(sink))
        return api.ND_READERS[c['reader']](ctx, packed)
    if have == need:
        with must_succeed('unpacking an array that fits'):
            read()
    else:
        with refused('array of %d bytes from %d stored bytes' % (need, have)) as r:
            read()
        expect(isinstance(r.exception, Exception), 'raised %r', r.exception)


# --------------------------------------------------- command line

@st.composite
def cli_cases(draw):
    c = draw(cases().filter(lambda c: not c['array']))
    c['cmd'] = draw(st.sampled_from(['decompress', 'decompress', 'append']))
    return c


def check_cli(c, ctx):
    with must_succeed('packing'):
        packed = api.bp.pack_bytes_to_bytes(
            gen.make_data(c['plan']['data']), metadata=gen.make_metadata(c['meta']),
            metadata_args=gen.make_metadata_args(c['margs']),
            bloscpack_args=gen.make_bloscpack_args(c['bp']), **gen.chunk_kw(c['plan']))
    f = parse(packed)
    b = boundaries(f)
    cut = b[c['cut'] % len(b)] if c['at'] == 'boundary' else c['cut'] % len(packed)
    d = api.workdir(ctx)
    api.write_file(d + '/f.blp', packed[:cut])
    api.write_file(d + '/n', b'abc')
    ctx.label(c['cmd'], 'cut in ' + region(f, cut))
    ctx.nontrivial(cut >= 32)
    r = api.run_cli(['decompress', 'f.blp', 'out'] if c['cmd'] == 'decompress' else
                    ['append', 'f.blp', 'n'], d)
    expect(r.status not in (0, None), 'blpk %s of a truncated file (%d of %d bytes): %r',
           c['cmd'], cut, len(packed), r)


# --------------------------------------------------- cuts and sizes at boundaries

def grid_cases(tier):
    quick = tier == 'quick'
    k = 0
    n = 1100 if quick else 5000
    for keep in sorted(set(range(0, 40)) | set(words.around(40, n - 1)) | {n - 1}):
        for extra in (0, 1, 16, -1):       # at the start of chunk ``keep`` and a little further or before
            k += 1
            yield {'n': n, 'cs': 1, 'keep': keep, 'extra': extra, 'k': k}
    for n in sorted(set(range(1, 40)) | set(words.around(40, 700 if quick else 5000))):
        for extra in (-1, -2, 'chunk'):    # the end of the last chunk
            k += 1
            yield {'n': n, 'cs': 3, 'keep': n, 'extra': extra, 'k': k}
    for cs in words.around(1, 2 ** 20 + 1 if quick else 2 ** 24 + 1):
        for at in (-1, 'chunk', 16):
            k += 1
            yield {'n': 2, 'cs': cs, 'keep': 1 if at == 16 else 2, 'extra': at, 'k': k}
    big = 2 ** 20 + 1 if quick else 2 ** 24 + 1
    for at in words.around(1, big):        # cuts inside a large chunk
        k += 1
        yield {'n': 2, 'cs': big, 'keep': k % 2, 'extra': 16 + at - 1, 'k': k}


_grid_cache = {}


def check_grid(c, ctx):
    key = c['n'], c['cs'], ('None', 'crc32')[c['k'] % 2], bool(c['k'] & 2)
    if key not in _grid_cache:
        if len(_grid_cache) > 3:
            _grid_cache.clear()
        with must_succeed('packing'):
            packed = api.bp.pack_bytes_to_bytes(
                gen.make_data({'size': c['n'] * c['cs'], 'kind': 'rnd', 'seed': 4}), chunk_size=c['cs'],
                blosc_args=gen.make_blosc_args({'clevel': 0}),
                bloscpack_args=api.bp.BloscpackArgs(checksum=key[2], offsets=key[3], max_app_chunks=2))
        _grid_cache[key] = packed, parse(packed)
    packed, f = _grid_cache[key]
    start = f.chunks[c['keep']].pos if c['keep'] < len(f.chunks) else len(packed)
    extra = c['extra']
    if extra == 'chunk':       # just before the last digest
        extra = -max(1, len(f.chunks[-1].digest))
    cut = min(start + extra, len(packed) - 1)
    names = sorted(api.READERS)
    r = names[c['k'] // 4 % len(names)]
    ctx.nontrivial()
    ctx.label('cut in ' + region(f, cut))
    with refused('prefix of %d of %d bytes (%s) read by %s' % (cut, len(packed), region(f, cut), r)):
        api.READERS[r](ctx, packed[:cut])


def size_cases(tier):
    k = 0
    for need in words.around(1, 2 ** 20 + 1 if tier == 'quick' else 2 ** 25):
        for cs in (need, max(1, need // 2), 4096):
            for delta in (-1, 1, -8, -cs, cs):
                if need + delta < 0 or need // cs > 300:
                    continue
                k += 1
                yield {'need': need, 'delta': delta, 'cs': cs, 'k': k}


def check_size(c, ctx):
    """A byte array of boundary size whose stored bytes are too many or too few."""
    have = c['need'] + c['delta']
    meta = {'dtype': repr('|u1'), 'shape': [c['need']], 'order': 'C', 'container': 'numpy'}
    with must_succeed('packing'):
        packed = api.bp.pack_bytes_to_bytes(
            bytes(have), chunk_size=c['cs'], metadata=meta,
            blosc_args=gen.make_blosc_args({'clevel': 1, 'typesize': 1}))
    readers = sorted(api.ND_READERS)
    r = readers[c['k'] % len(readers)]
    ctx.nontrivial()
    with refused('array of %d bytes from %d stored bytes read by %s' % (c['need'], have, r)) as e:
        api.ND_READERS[r](ctx, packed)
    expect(isinstance(e.exception, Exception), 'raised %r', e.exception)


# --------------------------------------------------- sinks in memory

def sink_cases(tier):
    for n in range(0, 7):
        for m in range(0, 7):
            for ck in ('None', 'adler32'):
                yield {'n': n, 'm': m, 'ck': ck}


def check_sink(c, ctx):
    """A sink in memory made for n chunks that is given m."""
    n, m = c['n'], c['m']
    parts = [bytes([65 + i]) * (1 + i) for i in range(m)]
    ctx.nontrivial(m > n)
    chunks = [api.blosc.compress(p, typesize=1) for p in parts]
    raw = ref.encode_file(chunks, checksum=c['ck'], offsets=None) if m else None
    sinks = [api.memory_io.PlainMemorySink(n)]

    def by_hand():
        for x in chunks:
            sinks[0].put(x)

    def by_file():
        sinks.append(api.memory_io.PlainMemorySink(n))
        api.abstract_io.unpack(api.file_io.CompressedFPSource(io.BytesIO(raw)), sinks[1])
    for put in [by_hand] + ([by_file] if m else []):
        if m > n:
            with refused('%d chunks given to a sink in memory made for %d' % (m, n)):
                put()
        else:
            with must_succeed('giving %d chunks to a sink in memory made for %d' % (m, n)):
                put()
            expect_eq([x for x in sinks[-1].chunks if x is not None], parts, 'chunks in memory')
            expect(m == n or list(sinks[-1].chunks) != parts, 'a sink made for %d chunks looks complete with %d', n, m)


PARTS = [
    Enum('sinks in memory', sink_cases, check_sink,
         'a sink in memory made for n chunks that is given m; non-trivial: more than fit'),
    Enum('grid', grid_cases, check_grid,
         'cuts at and around the start of chunk k of many, at the end of files of n chunks, of chunks of '
         'boundary sizes and at boundary positions inside a large chunk; all non-trivial'),
    Enum('array sizes', size_cases, check_size,
         'arrays of boundary sizes with a byte, an item or a chunk too many or too few; all non-trivial'),
    Enum('all prefixes', all_prefixes, check_prefixes,
         'every proper prefix of small files of 48 configurations, two readers each'),
    Enum('no chunks', no_chunk_cases, check_no_chunks,
         'every prefix that lacks some of the header or the metadata of files without chunks; all non-trivial'),
    Gen('prefixes', cases(), check, 2400, 60000,
        'random files and arrays cut at section/chunk boundaries or anywhere; non-trivial: the '
        '32-byte header is complete'),
    Gen('arrays', mismatch_cases(), check_mismatch, 1200, 30000,
        'array files whose stored bytes do not fit the description; non-trivial: sizes differ'),
    Gen('cli', cli_cases(), check_cli, 120, 2000,
        'truncated files given to blpk; non-trivial: as above'),
]
