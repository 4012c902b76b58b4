"""C06: corruption covered by a checksum never goes unnoticed."""
import io

from hypothesis import strategies as st

from .. import api, gen, ndgen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

ASSUMPTIONS = ['an alteration that collides under the checksum used is no detectable corruption; '
               'the reference recomputes all digests and such cases are not judged']

REAL = [c for c in gen.CHECKSUMS if c != 'None']


def alter(raw, lo, hi, spec):
    """Applies one alteration inside raw[lo:hi]."""
    b = bytearray(raw)
    n = hi - lo
    at = lo + spec['pos'] % n
    how = spec['how']
    if how == 'flip':
        b[at] ^= 1 << (spec['arg'] % 8)
    elif how == 'set':
        b[at] = spec['arg'] % 256
    elif how == 'zero':
        e = min(hi, at + 1 + spec['arg'] % 16)
        b[at:e] = bytes(e - at)
    elif how == 'add':
        b[at] = (b[at] + 1) % 256
    elif how == 'swap':
        to = lo + (spec['pos'] + 1 + spec['arg']) % n
        b[at], b[to] = b[to], b[at]
    elif how == 'reverse':
        e = min(hi, at + 2 + spec['arg'] % 30)
        b[at:e] = b[at:e][::-1]
    elif how == 'rnd':
        b[lo:hi] = gen.rnd_bytes(spec['arg'], n)
    elif how == 'ff':
        e = min(hi, at + 1 + spec['arg'] % 8)
        b[at:e] = b'\xff' * (e - at)
    return bytes(b)


alterations = st.fixed_dictionaries({
    'how': st.sampled_from(['flip', 'flip', 'flip', 'set', 'zero', 'add', 'swap', 'reverse', 'rnd', 'ff']),
    'pos': st.integers(0, 10 ** 6), 'arg': st.integers(0, 10 ** 6)})


@st.composite
def cases(draw):
    array = draw(st.integers(0, 3)) == 0
    c = {'array': array, 'blosc': draw(gen.blosc_spec()),
         'bp': draw(gen.bloscpack_spec(checksum=draw(st.sampled_from(REAL)))),
         'where': draw(st.sampled_from(['chunk', 'chunk', 'chunk', 'digest', 'header'])),
         'which': draw(st.integers(0, 50)),
         'alter': draw(st.lists(alterations, min_size=1, max_size=2))}
    if array:
        c['a'] = draw(ndgen.array_spec(max_items=200, depth=1))
        c['items'] = draw(st.integers(1, 60))
        c['reader'] = draw(st.sampled_from(sorted(api.ND_READERS)))
    else:
        c['plan'] = draw(gen.plan(big=False, max_chunks=8))
        c['meta'] = draw(gen.metadata_spec()) if draw(st.integers(0, 3)) == 0 else None
        c['reader'] = draw(st.sampled_from(sorted(api.READERS) + ['append'] * 2))
        if c['reader'] == 'append':
            c['bp']['max_app'] = {'int': 20}   # room for what is appended below
    return c


def build(c):
    if c['array']:
        a = ndgen.make_array(c['a'])
        return api.bp.pack_ndarray_to_bytes(
            a, chunk_size=a.itemsize * c['items'], blosc_args=gen.make_blosc_args(c['blosc']),
            bloscpack_args=gen.make_bloscpack_args(c['bp'])), a.tobytes(order='A')
    data = gen.make_data(c['plan']['data'])
    return api.bp.pack_bytes_to_bytes(
        data, metadata=gen.make_metadata(c['meta']), blosc_args=gen.make_blosc_args(c['blosc']),
        bloscpack_args=gen.make_bloscpack_args(c['bp']), **gen.chunk_kw(c['plan'])), data


def parse(packed):
    try:
        return ref.parse(packed, strict=False)
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)


def check(c, ctx):
    with must_succeed('packing'):
        packed, data = build(c)
    f = parse(packed)
    n = len(f.chunks)
    k = c['which'] % n
    if c['reader'] == 'append':
        k = n - 1
    ch = f.chunks[k]
    end = ch.pos + len(ch.compressed)
    if c['where'] == 'digest':
        lo, hi = end, end + len(ch.digest)
    elif c['where'] == 'header':
        lo, hi = ch.pos, ch.pos + 16
    else:
        lo, hi = ch.pos + 16, end
        if hi <= lo:
            lo = ch.pos
    bad = packed
    for a in c['alter']:
        bad = alter(bad, lo, hi, a)
    ctx.label('reader=' + c['reader'], 'where=' + c['where'], 'checksum=' + f.header.checksum,
              'last chunk' if k == n - 1 else 'earlier chunk')
    if c['reader'] == 'append' and not f.header.offsets:
        return
    # unaltered: never rejected
    with must_succeed('reading the unaltered file'):
        if c['reader'] == 'append':
            target = io.BytesIO(packed)
            api.append_mod.append_fp(target, io.BytesIO(b'xy'), 2)
        elif c['array']:
            api.ND_READERS[c['reader']](ctx, packed)
        else:
            expect_eq(api.READERS[c['reader']](ctx, packed)[0], data, 'unaltered data')
    if bad == packed:
        return
    if ref.sequential_valid(bad):
        ctx.label('collision')
        return
    ctx.nontrivial()
    # beyond the blosc header it has to be the documented exception
    excs = (exc.ChecksumMismatch,) if lo >= ch.pos + 16 else ()
    what = 'alteration of %s %d of %d' % (c['where'], k, n)
    if c['reader'] == 'append':
        target = io.BytesIO(bad)
        with refused('append despite ' + what, *excs):
            api.append_mod.append_fp(target, io.BytesIO(b'new content'), 11)
        expect_eq(target.getvalue(), bad, 'file after the refused append')
    elif c['array']:
        with refused('%s read by %s' % (what, c['reader']), *excs):
            api.ND_READERS[c['reader']](ctx, bad)
    else:
        with refused('%s read by %s' % (what, c['reader']), *excs):
            api.READERS[c['reader']](ctx, bad)
        if k < n - 1 and f.header.offsets and f.header.max_app:
            # an append elsewhere must not hide the corruption
            target = io.BytesIO(bad)
            try:
                api.append_mod.append_fp(target, io.BytesIO(b'q'), 1)
            except Exception:
                return
            with refused('%s, after an append, read by %s' % (what, c['reader'])):
                api.READERS[c['reader']](ctx, target.getvalue())


# ------------------------------------------------------------- metadata

@st.composite
def meta_cases(draw):
    return {'meta': draw(gen.metadata_spec(allow_none=False)),
            'margs': {'meta_checksum': draw(st.sampled_from(REAL)), 'meta_codec': draw(gen.meta_codecs),
                      'meta_level': draw(st.integers(0, 9)),
                      'reserve': {'add': draw(st.integers(0, 40))}},
            'bp': draw(gen.bloscpack_spec()), 'size': draw(st.integers(0, 100)),
            'where': draw(st.sampled_from(['stored', 'stored', 'digest'])),
            'alter': draw(st.lists(alterations, min_size=1, max_size=2)),
            'reader': draw(st.sampled_from(sorted(api.READERS) + ['append', 'rewrite', 'array']))}


def check_meta(c, ctx):
    meta = gen.make_metadata(c['meta'])
    with must_succeed('packing'):
        packed = api.bp.pack_bytes_to_bytes(
            bytes(c['size']), chunk_size=64, metadata=meta,
            metadata_args=gen.make_metadata_args(c['margs']),
            bloscpack_args=gen.make_bloscpack_args(c['bp']))
    f = parse(packed)
    m = f.meta_header
    if c['where'] == 'digest':
        lo, hi = 64 + m.max_size, f.meta_end
    else:
        lo, hi = 64, 64 + m.comp_size
    bad = packed
    for a in c['alter']:
        bad = alter(bad, lo, hi, a)
    with must_succeed('reading the unaltered file'):
        api.READERS['unpack_bytes_from_bytes'](ctx, packed)
    ctx.label('reader=' + c['reader'], 'where=' + c['where'], 'checksum=' + m.checksum)
    if bad == packed or ref.digest(m.checksum, bad[64:64 + m.comp_size]) == \
            bad[64 + m.max_size:f.meta_end]:
        return
    ctx.nontrivial()
    if c['reader'] in ('append', 'rewrite'):
        if c['reader'] == 'append' and not f.header.offsets:
            return
        target = io.BytesIO(bad)
        with refused('%s with corrupted metadata' % c['reader'], exc.ChecksumMismatch):
            if c['reader'] == 'append':
                api.append_mod.append_fp(target, io.BytesIO(b'abc'), 3)
            else:
                api.append_mod._seek_to_metadata(target)
                api.append_mod._rewrite_metadata_fp(target, {'other': 1})
        expect_eq(target.getvalue(), bad, 'file after the refused %s' % c['reader'])
        return
    with refused('corrupted metadata read by %s' % c['reader'], exc.ChecksumMismatch):
        if c['reader'] == 'array':
            api.ND_READERS['unpack_ndarray_from_bytes'](ctx, bad)
        else:
            api.READERS[c['reader']](ctx, bad)


# ------------------------------------------------------------- in memory

@st.composite
def memory_cases(draw):
    return {'plan': draw(gen.plan(big=False, max_chunks=6)), 'ck': draw(st.sampled_from(REAL)),
            'which': draw(st.integers(0, 50)), 'digest': draw(st.booleans()),
            'alter': draw(alterations), 'to': draw(st.sampled_from(['memory', 'fp']))}


def check_memory(c, ctx):
    data = gen.make_data(c['plan']['data'])
    n, cs, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    sink = api.memory_io.CompressedMemorySink()
    with must_succeed('packing to memory'):
        api.abstract_io.pack(api.file_io.PlainFPSource(io.BytesIO(data)), sink, n, cs, last,
                             bloscpack_args=api.bp.BloscpackArgs(checksum=c['ck']))

    def read():
        if c['to'] == 'memory':
            out = api.memory_io.PlainMemorySink()
            api.abstract_io.unpack(api.memory_io.CompressedMemorySource(sink), out)
            return b''.join(out.chunks)
        out = io.BytesIO()
        api.abstract_io.unpack(api.memory_io.CompressedMemorySource(sink), api.file_io.PlainFPSink(out))
        return out.getvalue()
    with must_succeed('unpacking from memory'):
        expect_eq(read(), data, 'unaltered data')
    k = c['which'] % n
    good, dig = bytes(sink.chunks[k]), bytes(sink.checksums[k])
    if c['digest']:
        sink.checksums[k] = alter(dig, 0, len(dig), c['alter'])
    else:
        sink.chunks[k] = alter(good, 0, len(good), c['alter'])
    if ref.digest(c['ck'], bytes(sink.chunks[k])) == bytes(sink.checksums[k]):
        return
    ctx.nontrivial()
    ctx.label('digest' if c['digest'] else 'chunk', c['ck'])
    with refused('altered chunk %d in memory' % k, exc.ChecksumMismatch):
        read()


# ------------------------------------------------------------- exhaustive bit flips

def flip_cases(tier):
    for ck in REAL:
        for kind in ('data', 'meta'):
            n = len(flip_file(ck, kind)[0])
            for pos in range(32, n):
                yield {'ck': ck, 'kind': kind, 'pos': pos}


_flip_cache = {}


def flip_file(ck, kind):
    """A small file written by the reference encoder and the altered region."""
    if (ck, kind) not in _flip_cache:
        chunks = [api.blosc.compress(bytes(range(i, i + 12)), typesize=1) for i in (0, 100)]
        meta = {'raw': b'{"a":1}', 'checksum': ck, 'reserve': 2} if kind == 'meta' else None
        raw = ref.encode_file(chunks, checksum=ck, offsets=None, typesize=1, chunk_size=12,
                              last_chunk=12, meta=meta)
        f = ref.parse(raw, strict=True)
        if kind == 'meta':
            covered = list(range(64, 64 + 7)) + list(range(64 + 9, f.meta_end))
        else:
            covered = list(range(f.data_pos, len(raw)))
        _flip_cache[ck, kind] = raw, set(covered)
    return _flip_cache[ck, kind]


def check_flip(c, ctx):
    raw, covered = flip_file(c['ck'], c['kind'])
    if c['pos'] not in covered:
        return
    ctx.nontrivial()
    for bit in range(8):
        b = bytearray(raw)
        b[c['pos']] ^= 1 << bit
        b = bytes(b)
        if ref.sequential_valid(b):
            continue
        with refused('bit %d of byte %d flipped' % (bit, c['pos'])):
            api.bp.unpack_bytes_from_bytes(b)


# ------------------------------------------------------------- command line

@st.composite
def cli_cases(draw):
    c = draw(cases().filter(lambda c: not c['array']))
    c['reader'] = draw(st.sampled_from(['decompress', 'append']))
    return c


def check_cli(c, ctx):
    with must_succeed('packing'):
        packed, data = build(c)
    f = parse(packed)
    k = len(f.chunks) - 1 if c['reader'] == 'append' else c['which'] % len(f.chunks)
    ch = f.chunks[k]
    bad = packed
    for a in c['alter']:
        bad = alter(bad, ch.pos, ch.pos + len(ch.compressed) + len(ch.digest), a)
    if bad == packed or ref.sequential_valid(bad) or (c['reader'] == 'append' and not f.header.offsets):
        return
    ctx.nontrivial()
    ctx.label(c['reader'])
    d = api.workdir(ctx)
    api.write_file(d + '/f.blp', bad)
    api.write_file(d + '/new', b'some new content')
    args = ['decompress', 'f.blp', 'out'] if c['reader'] == 'decompress' else ['append', 'f.blp', 'new']
    r = api.run_cli(args, d)
    expect(r.status not in (0, None), 'blpk %s of a corrupted file: %r', ' '.join(args), r)
    expect_eq(api.read_file(d + '/f.blp'), bad, 'the corrupted file itself')


# ------------------------------------------------------------- positions at boundaries

def position_cases(tier):
    readers = sorted(api.READERS)
    k = 0
    # which chunk of many
    n = 1100 if tier == 'quick' else 5000
    for which in sorted(set(range(0, 40)) | set(words.around(40, n - 1)) | {n - 2, n - 1}):
        k += 1
        yield {'n': n, 'cs': 1, 'which': which, 'at': 16, 'k': k, 'reader': readers[k % len(readers)]}
    for n in sorted(set(range(1, 40)) | set(words.around(40, 700 if tier == 'quick' else 5000))):
        k += 1      # the last chunk of a file
        yield {'n': n, 'cs': 3, 'which': n - 1, 'at': 17, 'k': k, 'reader': (readers + ['append'])[k % 9]}
    # which byte of a chunk, and chunks of which size
    top = 2 ** 20 + 1 if tier == 'quick' else 2 ** 24 + 1
    for at in words.around(16, top - 1):
        k += 1
        yield {'n': 2, 'cs': top, 'which': k % 2, 'at': at, 'k': k, 'reader': readers[k % len(readers)]}
    for cs in words.around(1, top):
        for at in (16, 16 + cs // 2, 15 + cs, 16 + cs, -1):
            k += 1
            yield {'n': 2, 'cs': cs, 'which': k % 2, 'at': at, 'k': k, 'reader': readers[k % len(readers)]}


_position_cache = {}


def position_file(n, cs, ck):
    if (n, cs, ck) not in _position_cache:
        _position_cache.clear()
        data = gen.make_data({'size': n * cs, 'kind': 'rnd', 'seed': 9})
        with must_succeed('packing'):
            raw = api.bp.pack_bytes_to_bytes(
                data, chunk_size=cs, blosc_args=gen.make_blosc_args({'clevel': 0}),
                bloscpack_args=gen.make_bloscpack_args({'checksum': ck, 'max_app': {'int': 9}}))
        _position_cache[n, cs, ck] = raw, parse(raw)
    return _position_cache[n, cs, ck]


def check_position(c, ctx):
    ck = REAL[(c['k'] // 8) % len(REAL)]
    raw, f = position_file(c['n'], c['cs'], ck)
    ch = f.chunks[c['which']]
    size = len(ch.compressed) + len(ch.digest)
    b = bytearray(raw)
    b[ch.pos + c['at'] % size] ^= 1 << (c['k'] % 8)
    b = bytes(b)
    ctx.nontrivial()
    ctx.label(ck)
    what = 'byte %d of chunk %d of %d, each of %d bytes, altered' % (c['at'] % size, c['which'], c['n'], c['cs'])
    if c['reader'] == 'append':
        t = io.BytesIO(b)
        with refused('append after ' + what, exc.ChecksumMismatch):
            api.append_mod.append_fp(t, io.BytesIO(b'x' * 9), 9)
        expect_eq(t.getvalue(), b, 'file after the refused append')
        return
    with refused('%s, read by %s' % (what, c['reader']), exc.ChecksumMismatch):
        api.READERS[c['reader']](ctx, b)


def meta_position_cases(tier):
    k = 0
    for n in sorted(set(range(2, 30)) | set(words.around(30, 2 ** 17 if tier == 'quick' else 2 ** 20))):
        for at in (0, n // 2, n - 1, -1):
            k += 1
            yield {'n': n, 'at': at, 'k': k, 'reserve': (0, 1, 9 * n)[k % 3]}


def check_meta_position(c, ctx):
    """One altered byte in uncompressed metadata of n bytes, or in its digest."""
    k, n = c['k'], c['n']
    ck = REAL[k % len(REAL)]
    with must_succeed('packing'):
        raw = api.bp.pack_bytes_to_bytes(b'abc', metadata='y' * (n - 2), metadata_args=api.bp.MetadataArgs(
            meta_checksum=ck, meta_codec='None', max_meta_size=n + c['reserve']))
    f = parse(raw)
    covered = list(range(64, 64 + n)) if c['at'] >= 0 else list(range(64 + n + c['reserve'], f.meta_end))
    b = bytearray(raw)
    b[covered[c['at']]] ^= 1 << (k % 8)
    ctx.nontrivial()
    reader = sorted(api.READERS)[k % len(api.READERS)]
    with refused('byte %d of %d bytes of metadata altered, read by %s' % (c['at'], n, reader),
                 exc.ChecksumMismatch):
        api.READERS[reader](ctx, bytes(b))


PARTS = [
    Enum('positions', position_cases, check_position,
         'one altered byte: in which chunk of many, at which byte of a large chunk, in chunks of which size, '
         'each at powers of two, of ten and literals of the code with neighbours; all non-trivial'),
    Enum('metadata positions', meta_position_cases, check_meta_position,
         'one altered byte in metadata of boundary sizes or in its digest; all non-trivial'),
    Enum('bitflips', flip_cases, check_flip,
         'every single bit flip in chunks, digests and metadata of small files, for every checksum; '
         'non-trivial: the byte is covered by a checksum'),
    Gen('chunks', cases(), check, 2400, 60000,
        'random files x random alterations of a chunk or digest x readers and append; non-trivial: '
        'altered without checksum collision'),
    Gen('metadata', meta_cases(), check_meta, 1000, 20000,
        'alterations of stored metadata or its digest; non-trivial: as above'),
    Gen('memory', memory_cases(), check_memory, 500, 10000,
        'alterations of in-memory compressed chunks; non-trivial: as above'),
    Gen('cli', cli_cases(), check_cli, 160, 3000,
        'alterations seen by blpk decompress and append; non-trivial: as above'),
]
