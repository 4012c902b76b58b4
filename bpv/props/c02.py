"""C02: metadata survives packing unchanged and fits exactly its reserved space."""
import random

from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

ASSUMPTIONS = ['zlib is deterministic', 'NaN and infinity are not JSON and not generated',
               'top-level None means "no metadata" and is not generated as metadata']


@st.composite
def cases(draw):
    return {'meta': draw(gen.metadata_spec()), 'margs': draw(gen.metadata_args_spec()),
            'plan': draw(gen.plan(big=False, max_chunks=6)),
            'bp': draw(gen.bloscpack_spec()),
            'writer': draw(st.sampled_from(sorted(api.WRITERS))),
            'reader': draw(st.sampled_from(sorted(api.READERS)))}


def pack(c, ctx, data, meta, margs):
    kw = dict(gen.chunk_kw(c['plan']))
    kw['bloscpack_args'] = gen.make_bloscpack_args(c['bp'])
    return api.WRITERS[c['writer']](ctx, data, metadata=meta, metadata_args=margs, **kw)


def check_section(f, meta, eff):
    """The stored section holds the metadata in its documented form."""
    m = f.meta_header
    expect(m is not None, 'no metadata section although metadata was given')
    expect(ref.strict_eq(f.metadata, meta), 'stored metadata is %r', f.metadata)
    expect(m.comp_size <= m.size, 'stored form (%d) larger than the serialization (%d)',
           m.comp_size, m.size)
    expect_eq(m.checksum, eff['meta_checksum'], 'stored metadata checksum')
    if eff['meta_codec'] == 'None':
        expect_eq(m.codec, 'None', 'stored metadata codec')
    else:
        best = len(ref.zlib.compress(f.meta_raw, eff['meta_level']))
        if best < m.size:
            expect_eq(m.codec, 'zlib', 'codec although compression helps')
            expect_eq(m.comp_size, best, 'size of the compressed metadata')
            expect_eq(m.level, eff['meta_level'], 'stored metadata level')
        elif best > m.size:
            expect_eq(m.codec, 'None', 'codec although compression does not help')


def check_roundtrip(c, ctx):
    data, meta = gen.make_data(c['plan']['data']), gen.make_metadata(c['meta'])
    eff = gen.effective_metadata_args(c['margs'])
    r = eff['reserve']
    ctx.label('none' if c['meta'] is None else 'big' if 'big' in c['meta'] else
              type(meta).__name__, 'checksum=' + eff['meta_checksum'],
              'codec=%s level=%d' % (eff['meta_codec'], eff['meta_level']))
    ctx.nontrivial(meta not in (None, {}, [], ''))
    margs = gen.make_metadata_args(c['margs'])
    with must_succeed('packing with metadata'):
        packed = pack(c, ctx, data, meta, margs)
    try:
        f = ref.parse(packed)
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)
    if meta is not None:
        check_section(f, meta, eff)
        want = gen.make_max_app(r)
        want = want(f.meta_header.size) if callable(want) else want
        expect_eq(f.meta_header.max_size, want, 'reserved metadata space')
    else:
        expect(f.meta_header is None, 'metadata section although none was given')
    with must_succeed('unpacking with %s' % c['reader']):
        got, gmeta = api.READERS[c['reader']](ctx, packed)
    expect(ref.strict_eq(gmeta, meta), '%s returned metadata %r instead of %r',
           c['reader'], gmeta, meta)
    expect_eq(got, data, 'data next to the metadata')


@st.composite
def exact_cases(draw):
    meta = draw(gen.metadata_spec(allow_none=False))
    return {'meta': meta, 'delta': draw(st.sampled_from([-1, -1, 0, 0, 1, -2, 2, -7, 50, -10 ** 6])),
            'as': draw(st.sampled_from(['int', 'callable'])),
            'margs': {'meta_checksum': draw(gen.meta_checksums), 'meta_codec': draw(gen.meta_codecs),
                      'meta_level': draw(st.integers(0, 9))},
            'plan': draw(gen.plan(big=False, max_chunks=3)), 'bp': draw(gen.bloscpack_spec()),
            'writer': draw(st.sampled_from(sorted(api.WRITERS))),
            'reader': draw(st.sampled_from(sorted(api.READERS)))}


def check_exact(c, ctx):
    data, meta = gen.make_data(c['plan']['data']), gen.make_metadata(c['meta'])
    # learn the stored size from a file with plenty of space
    with must_succeed('packing with a large reservation'):
        packed = pack(c, ctx, data, meta,
                      gen.make_metadata_args(dict(c['margs'], reserve={'add': 20})))
    try:
        stored = ref.parse(packed).meta_header.comp_size
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)
    room = max(0, stored + c['delta'])
    ctx.label('fits' if room >= stored else 'too small', 'exact' if room == stored else None)
    ctx.nontrivial(abs(room - stored) <= 1)
    margs = gen.make_metadata_args(
        dict(c['margs'], reserve={'int' if c['as'] == 'int' else 'const': room}))
    if room >= stored:
        with must_succeed('packing %d bytes of metadata into %d' % (stored, room)):
            packed = pack(c, ctx, data, meta, margs)
            got, gmeta = api.READERS[c['reader']](ctx, packed)
        expect(ref.strict_eq(gmeta, meta), 'metadata %r instead of %r', gmeta, meta)
        expect_eq(got, data, 'data next to the metadata')
        expect_eq(ref.parse(packed, strict=False).meta_header.max_size, room, 'reserved space')
    else:
        with refused('packing %d bytes of metadata into %d' % (stored, room),
                     exc.MetadataSectionTooSmall):
            pack(c, ctx, data, meta, margs)


# ------------------------------------------------- lengths and strings at boundaries

def length_cases(tier):
    top = 2 ** 17 if tier == 'quick' else 2 ** 22
    lengths = sorted(set(range(1, 300 if tier == 'quick' else 3000)) | set(words.around(1, top)))
    if tier == 'quick':
        # and some long ones
        lengths += [2 ** 18 + 1, 10 ** 6 + 1, 2 ** 20, 2 ** 20 + 1, 2 ** 22 + 1]
    for k, n in enumerate(lengths):
        for kind in ('rnd', 'rep'):
            for codec in ('None', 'zlib'):
                if n < 300:
                    reserve = ['exact', 'mul']
                elif n > top:
                    reserve = ['exact', 'add']
                else:
                    reserve = ['exact', 'twice', 'add']
                yield {'n': n, 'kind': kind, 'codec': codec, 'level': k % 10, 'reserve': reserve,
                       'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)]}


def sized_metadata(n, kind):
    """JSON metadata whose serialization has exactly n bytes."""
    if n == 1:
        return 7
    if kind == 'rep':
        return 'ab' * ((n - 2) // 2) + 'c' * (n % 2)
    r = random.Random(n)
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/')
                   for _ in range(n - 2))


def check_length(c, ctx):
    meta, n = sized_metadata(c['n'], c['kind']), c['n']
    ctx.nontrivial()
    stored = None
    for how in c['reserve']:
        if how == 'exact':
            # learn the stored size first
            with must_succeed('packing metadata of %d bytes' % n):
                p = api.bp.pack_bytes_to_bytes(b'abc', metadata=meta, metadata_args=api.bp.MetadataArgs(
                    meta_codec=c['codec'], meta_level=c['level'], meta_checksum=c['checksum'],
                    max_meta_size=lambda m: m))
            try:
                stored = ref.parse(p).meta_header.comp_size
            except ref.RefError as e:
                raise Violation('file does not conform: %s' % e)
            want = stored
            limit = stored
        elif how == 'mul':
            limit, want = (lambda m: 10 * m), 10 * n
        elif how == 'twice':
            limit, want = (lambda m: 2 * m), 2 * n
        else:
            limit = want = n + 77
        with must_succeed('packing metadata of %d bytes' % n):
            p = api.bp.pack_bytes_to_bytes(b'abc', metadata=meta, metadata_args=api.bp.MetadataArgs(
                meta_codec=c['codec'], meta_level=c['level'], meta_checksum=c['checksum'],
                max_meta_size=limit))
            got, gmeta = api.bp.unpack_bytes_from_bytes(p)
        try:
            f = ref.parse(p)
        except ref.RefError as e:
            raise Violation('file does not conform: %s' % e)
        expect_eq(f.meta_header.size, n, 'recorded size of the metadata')
        expect_eq(f.meta_header.max_size, want, 'reserved metadata space')
        check_section(f, meta, {'meta_codec': c['codec'], 'meta_level': c['level'],
                                'meta_checksum': c['checksum']})
        expect(ref.strict_eq(gmeta, meta), 'metadata of %d bytes: %r instead of %r', n, gmeta, meta)
        expect_eq(got, b'abc', 'data next to the metadata')
    if stored > 0:
        with refused('packing %d bytes of metadata into %d' % (stored, stored - 1),
                     exc.MetadataSectionTooSmall):
            api.bp.pack_bytes_to_bytes(b'abc', metadata=meta, metadata_args=api.bp.MetadataArgs(
                meta_codec=c['codec'], meta_level=c['level'], max_meta_size=stored - 1))


def string_cases(tier):
    extra = ['', '\0', '\x7f', '\x80', '\ud800', '\u2028', '\ufeff', '\U0001f600', '"', '\\', '/', 'NaN', '0', '-0',
             'null', 'true', '\r\n', '\t', ' ', '  x  ', 'é', 'e\u0301']
    for s in extra + words.strings():
        for form in range(6):
            yield {'s': s, 'form': form}


def check_string(c, ctx):
    s = c['s']
    meta = [s, {s: 1}, {s: s, 'other': 2}, [s, [s]], {'x': {s: [None, s, True]}},
            {s: {}, s + 'x': []}][c['form']]
    ctx.nontrivial()
    import copy
    for codec in ('None', 'zlib'):
        want = copy.deepcopy(meta)
        with must_succeed('packing and unpacking with metadata %r' % (want,)):
            got, gmeta = api.bp.unpack_bytes_from_bytes(api.bp.pack_bytes_to_bytes(
                b'abc', metadata=meta, metadata_args=api.bp.MetadataArgs(meta_codec=codec)))
        expect(ref.strict_eq(gmeta, want), 'metadata %r instead of %r', gmeta, want)
        expect(ref.strict_eq(meta, want), 'metadata given by the caller changed to %r', meta)
        expect_eq(got, b'abc', 'data next to the metadata')


PARTS = [
    Enum('lengths', length_cases, check_length,
         'metadata whose serialization has any length up to 300 and boundary lengths up to 128 KiB (thorough '
         '3000 and 4 MiB) x compressible or not x codec x reservation exact, ample, one too small'),
    Enum('strings', string_cases, check_string,
         'special strings and every string literal of the code as metadata keys and values'),
    Gen('roundtrip', cases(), check_roundtrip, 2400, 60000,
        'random JSON metadata x all metadata arguments x data x entry points; non-trivial: '
        'metadata is present and not an empty value'),
    Gen('reservation', exact_cases(), check_exact, 1200, 30000,
        'reservations around the stored size; non-trivial: within one byte of the stored size'),
]
