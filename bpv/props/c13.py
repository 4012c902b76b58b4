"""C13: header encoding and decoding are exact inverses and validate."""
import struct

from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

from bloscpack import headers

ASSUMPTIONS = ['the 8-byte strings of a metadata header are NUL-padded, so NULs at their end carry no meaning',
               'metadata option bits are stored and returned as they are']

MAXBUF, I64 = gen.MAXBUF, ref.INT64_MAX
HFIELDS = ['format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size', 'last_chunk',
           'nchunks', 'max_app_chunks']
MFIELDS = ['magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level', 'meta_size',
           'max_meta_size', 'meta_comp_size', 'user_codec']


def near(lo, hi):
    """Integers in [lo, hi], often at the limits or at powers of two."""
    marks = sorted(set(x for b in (0, 7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 62, 63) for d in (-1, 0, 1)
                       for x in (2 ** b + d,) if lo <= x <= hi) | {lo, hi, min(lo + 1, hi), max(hi - 1, lo)})
    return st.one_of(st.sampled_from(marks), st.integers(lo, hi))


@st.composite
def valid_header(draw):
    n = draw(near(-1, I64))
    app = 0 if n == -1 else draw(near(0, I64 - n))
    cs, last = draw(near(-1, MAXBUF)), draw(near(-1, MAXBUF))
    if cs != -1 and last > cs:
        last = draw(st.sampled_from([cs, -1, 0]))
    return {'format_version': draw(near(0, 255)), 'offsets': draw(st.booleans()), 'metadata': draw(st.booleans()),
            'checksum': draw(st.sampled_from(gen.CHECKSUMS)), 'typesize': draw(near(0, 255)),
            'chunk_size': cs, 'last_chunk': last, 'nchunks': n, 'max_app_chunks': app}


def pack_header(k):
    return ref.encode_header(version=k['format_version'], offsets=k['offsets'], metadata=k['metadata'],
                             checksum=k['checksum'], typesize=k['typesize'], chunk_size=k['chunk_size'],
                             last_chunk=k['last_chunk'], nchunks=k['nchunks'], max_app=k['max_app_chunks'])


def attrs(h, fields):
    return dict((f, getattr(h, f)) for f in fields)


def same(got, want, what):
    for k in want:
        expect(got[k] == want[k] and (type(got[k]) is type(want[k])), '%s: %s is %r, expected %r',
               what, k, got[k], want[k])


def check_header(c, ctx):
    ctx.nontrivial(c['nchunks'] > 0)
    ctx.label('nchunks unknown' if c['nchunks'] == -1 else None, 'sizes unknown' if -1 in (
        c['chunk_size'], c['last_chunk']) else None)
    with must_succeed('encoding a valid header'):
        raw = headers.BloscpackHeader(**c).encode()
    expect(isinstance(raw, bytes) and len(raw) == 32, 'header encodes to %r', raw)
    expect_eq(raw, pack_header(c), 'encoded header')
    with must_succeed('decoding a valid header'):
        h = headers.BloscpackHeader.decode(raw)
    same(attrs(h, HFIELDS), c, 'decoded header')
    expect_eq(dict(h), c, 'decoded header as a mapping')
    with must_succeed('constructing the header'):
        expect(h == headers.BloscpackHeader(**c), 'decoded header is not equal to the original')
        expect_eq(h.encode(), raw, 'header encoded again')


# ------------------------------------------------------- metadata header

text8 = st.one_of(st.binary(max_size=8).map(lambda b: b.rstrip(b'\0')), st.just(b'JSON'), st.just(b''),
                  st.just(b'12345678'), st.sampled_from([b'\0', b'\0JSON', b'\0\0\0a', b' JSON', b'JSON ', b'a\0b', b'\0 ']).map(
                      lambda b: b.rstrip(b'\0')))


@st.composite
def valid_meta(draw):
    return {'magic_format': draw(text8).hex(), 'meta_options': draw(st.text('01', min_size=8, max_size=8)),
            'meta_checksum': draw(st.sampled_from(gen.CHECKSUMS)), 'meta_codec': draw(st.sampled_from(ref.META_CODECS)),
            'meta_level': draw(st.integers(0, 9)), 'meta_size': draw(near(0, 2 ** 32 - 1)),
            'max_meta_size': draw(near(0, 2 ** 32 - 1)), 'meta_comp_size': draw(near(0, 2 ** 32 - 1)),
            'user_codec': draw(text8).hex()}


def unhex(c):
    return dict(c, magic_format=bytes.fromhex(c['magic_format']), user_codec=bytes.fromhex(c['user_codec']))


def pack_meta(k):
    return ref.encode_meta_header(
        magic=k['magic_format'], options=int(k['meta_options'], 2), checksum=k['meta_checksum'],
        codec=k['meta_codec'], level=k['meta_level'], size=k['meta_size'], max_size=k['max_meta_size'],
        comp_size=k['meta_comp_size'], user_codec=k['user_codec'])


def check_meta(c, ctx):
    c = unhex(c)
    ctx.nontrivial(c['meta_size'] > 0)
    with must_succeed('encoding a valid metadata header'):
        raw = headers.MetadataHeader(**c).encode()
    expect(isinstance(raw, bytes) and len(raw) == 32, 'metadata header encodes to %r', raw)
    expect_eq(raw, pack_meta(c), 'encoded metadata header')
    with must_succeed('decoding a valid metadata header'):
        h = headers.MetadataHeader.decode(raw)
    same(attrs(h, MFIELDS), c, 'decoded metadata header')
    expect_eq(dict(h), c, 'decoded metadata header as a mapping')
    with must_succeed('constructing the metadata header'):
        expect(h == headers.MetadataHeader(**c), 'decoded metadata header is not equal to the original')


# ------------------------------------------------------- any buffer

@st.composite
def buffers(draw):
    kind = draw(st.sampled_from(['header', 'meta']))
    how = draw(st.integers(0, 3))
    if how == 0:
        raw = draw(st.binary(min_size=32, max_size=32))
        if kind == 'header' and draw(st.integers(0, 7)):
            raw = b'blpk' + raw[4:]
            if draw(st.booleans()):
                raw = raw[:5] + bytes([raw[5] % 4, raw[6] % 10]) + raw[7:]
    else:
        raw = pack_header(draw(valid_header())) if kind == 'header' else pack_meta(unhex(draw(valid_meta())))
        b = bytearray(raw)
        for _ in range(draw(st.integers(1, 3))):
            at = draw(st.integers(0, 31))
            if draw(st.booleans()):
                b[at] ^= 1 << draw(st.integers(0, 7))
            else:
                b[at] = draw(st.sampled_from([0, 1, 8, 9, 10, 0x7f, 0x80, 0xff]))
        raw = bytes(b)
    if draw(st.integers(0, 9)) == 0:
        n = draw(st.integers(0, 70))
        raw = (raw * 3)[:n]
    return {'kind': kind, 'hex': raw.hex()}


def valid(kind, raw):
    """Does the buffer respect all documented ranges and constraints?"""
    if len(raw) != 32:
        return False
    if kind == 'meta':
        return raw[9] < 9 and raw[10] < 2 and raw[11] <= 9
    magic, _, opt, ck, _, cs, last, n, app = struct.unpack('<4sBBBBiiqq', raw)
    return magic == b'blpk' and opt < 4 and ck < 9 and -1 <= cs <= MAXBUF and -1 <= last <= MAXBUF and \
        n >= -1 and app >= 0 and (n + app <= I64 if n >= 0 else app == 0) and \
        (cs == -1 or last == -1 or last <= cs)


def check_buffer(c, ctx):
    raw, kind = bytes.fromhex(c['hex']), c['kind']
    cls = headers.BloscpackHeader if kind == 'header' else headers.MetadataHeader
    ok = valid(kind, raw)
    ctx.label(kind + (' valid' if ok else ' invalid'), 'wrong length' if len(raw) != 32 else None)
    ctx.nontrivial(len(raw) == 32)
    if not ok:
        with refused('decoding an invalid %s %s' % (kind, raw.hex())) as r:
            cls.decode(raw)
        if len(raw) != 32 or kind == 'header' and (raw[:4] != b'blpk' or raw[5] > 3):
            expect(isinstance(r.exception, ValueError), 'refused with %r', r.exception)
        return
    with must_succeed('decoding a valid %s %s' % (kind, raw.hex())):
        again = cls.decode(raw).encode()
    expect_eq(again, raw, 're-encoded ' + kind)


# ------------------------------------------------------- refused values

def bad_header_cases(tier):
    bad = {
        'format_version': [-1, 256, 2 ** 31, 1.0, '3', None],
        'checksum': ['crc', '', 'ADLER32', 'none', 'sha3', 5, None],
        'typesize': [-1, 256, 2 ** 31, 8.0, '8', None],
        'chunk_size': [-2, MAXBUF + 1, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 1.5, '1', None],
        'last_chunk': [-2, MAXBUF + 1, 2 ** 31, -2 ** 31, 1.5, '1', None],
        'nchunks': [-2, 2 ** 63, 2 ** 64, -2 ** 63, 1.5, '1', None],
        'max_app_chunks': [-1, 2 ** 63, 2 ** 64, 1.5, '1', None],
    }
    for k in sorted(bad):
        for v in bad[k]:
            yield {'kind': 'header', 'kw': {k: v}}
    # constraints between fields
    for n in (0, 1, 2, 10 ** 6, I64 - 1, I64):
        for extra in (1, 2, 10 ** 9):
            app = I64 - n + extra
            if app <= I64:
                yield {'kind': 'header', 'kw': {'nchunks': n, 'max_app_chunks': app}}
    for app in (1, 2, 100, I64):
        yield {'kind': 'header', 'kw': {'nchunks': -1, 'max_app_chunks': app}}
    for cs in (0, 1, 5, 1000, MAXBUF - 1):
        for d in (1, 2, 17):
            if cs + d <= MAXBUF:
                yield {'kind': 'header', 'kw': {'chunk_size': cs, 'last_chunk': cs + d}}
    badm = {
        'magic_format': ['JSON', 1, None, {'b': '00' * 9}, {'b': 'ff' * 40}],
        'meta_options': ['', '0', '000000000', '0000000', '00000002', 'abcdefgh', 0, None, {'b': '30' * 8}],
        'meta_checksum': ['crc', '', 'MD5', 5, None],
        'meta_codec': ['lz4', '', 'ZLIB', 'none', 5, None],
        'meta_level': [-1, 10, 256, 1.0, '1', None],
        'meta_size': [-1, 2 ** 32, 2 ** 64, 1.0, '1', None],
        'max_meta_size': [-1, 2 ** 32, 2 ** 64, 1.0, '1', None],
        'meta_comp_size': [-1, 2 ** 32, 2 ** 64, 1.0, '1', None],
        'user_codec': ['abc', 1, None, {'b': '61' * 9}],
    }
    for k in sorted(badm):
        for v in badm[k]:
            yield {'kind': 'meta', 'kw': {k: v}}


def check_bad(c, ctx):
    kw = dict((k, bytes.fromhex(v['b']) if isinstance(v, dict) else v) for k, v in c['kw'].items())
    ctx.nontrivial()
    cls = headers.BloscpackHeader if c['kind'] == 'header' else headers.MetadataHeader
    with refused('%s with %r' % (cls.__name__, kw), ValueError, TypeError):
        cls(**kw)


def length_cases(tier):
    return [{'n': n} for n in range(0, 80 if tier == 'quick' else 300) if n != 32]


def check_length(c, ctx):
    ctx.nontrivial()
    h, m = ref.encode_header(nchunks=1, chunk_size=1, last_chunk=1), ref.encode_meta_header()
    with refused('header of %d bytes' % c['n'], ValueError):
        headers.BloscpackHeader.decode((h * 10)[:c['n']])
    with refused('metadata header of %d bytes' % c['n'], ValueError):
        headers.MetadataHeader.decode((m * 10)[:c['n']])


# ------------------------------------------------------- every field, every boundary value, every byte

BASE_H = {'format_version': 3, 'offsets': True, 'metadata': False, 'checksum': 'adler32', 'typesize': 8,
          'chunk_size': -1, 'last_chunk': -1, 'nchunks': 5, 'max_app_chunks': 0}
BASE_M = {'magic_format': b'JSON', 'meta_options': '00000000', 'meta_checksum': 'md5', 'meta_codec': 'zlib',
          'meta_level': 6, 'meta_size': 10, 'max_meta_size': 20, 'meta_comp_size': 5, 'user_codec': b''}
RANGES = {'format_version': (0, 255), 'typesize': (0, 255), 'chunk_size': (-1, MAXBUF), 'last_chunk': (-1, MAXBUF),
          'nchunks': (-1, I64), 'max_app_chunks': (0, I64 - 5), 'meta_size': (0, 2 ** 32 - 1),
          'max_meta_size': (0, 2 ** 32 - 1), 'meta_comp_size': (0, 2 ** 32 - 1), 'meta_level': (0, 9)}


def sweep_cases(tier):
    for f in sorted(RANGES):
        yield {'field': f}
    for a in ('chunk_size', 'nchunks', 'max_meta_size', 'meta_size'):
        yield {'pair': a}
    yield {'flags': 1}
    for kind in ('header', 'meta'):
        for at in range(32):
            yield {'byte': at, 'kind': kind}


def check_sweep(c, ctx):
    ctx.nontrivial()
    if 'field' in c:
        lo, hi = RANGES[c['field']]
        base, fn = (BASE_H, check_header) if c['field'] in BASE_H else (BASE_M, check_meta_raw)
        for v in [lo] + words.around(max(lo, 0), hi) + [hi - 1, hi]:
            fn(dict(base, **{c['field']: v}), ctx)
    elif 'pair' in c:
        a = c['pair']
        b, base, fn = {'chunk_size': ('last_chunk', BASE_H, check_header),
                       'nchunks': ('max_app_chunks', BASE_H, check_header),
                       'max_meta_size': ('meta_comp_size', BASE_M, check_meta_raw),
                       'meta_size': ('meta_comp_size', BASE_M, check_meta_raw)}[a]
        lo, hi = RANGES[a]
        for v in words.spread(words.around(0, hi), 80) + [hi]:
            for w in words.spread(words.around(0, RANGES[b][1]), 80) + [v, v - 1, I64 - v, I64 - v - 1]:
                if w < 0 or w > RANGES[b][1] + 5 or a == 'chunk_size' and w > v or a == 'nchunks' and v + w > I64:
                    continue
                fn(dict(base, **{a: v, b: w}), ctx)
    elif 'flags' in c:
        for ck in gen.CHECKSUMS:
            for o in (False, True):
                for m in (False, True):
                    for ts in range(256):
                        check_header(dict(BASE_H, checksum=ck, offsets=o, metadata=m, typesize=ts), ctx)
            for codec in ref.META_CODECS:
                for level in range(10):
                    for magic in (b'', b'JSON', b'JSON\0X', b'12345678', b'\xff' * 8, b' JSON ', b'\x01'):
                        for bits in ('00000000', '00000001', '10000000', '11111111'):
                            check_meta_raw(dict(BASE_M, meta_checksum=ck, meta_codec=codec, meta_level=level,
                                                magic_format=magic, user_codec=magic[::-1], meta_options=bits), ctx)
    else:
        base = pack_header(BASE_H) if c['kind'] == 'header' else pack_meta(BASE_M)
        for v in range(256):
            b = bytearray(base)
            b[c['byte']] = v
            check_buffer({'kind': c['kind'], 'hex': bytes(b).hex()}, ctx)


def check_meta_raw(c, ctx):
    check_meta(dict(c, magic_format=c['magic_format'].hex(), user_codec=c['user_codec'].hex()), ctx)


PARTS = [
    Enum('refused values', bad_header_cases, check_bad,
         'every field with values outside its range, of other types, and violated constraints'),
    Enum('lengths', length_cases, check_length, 'every buffer length up to 79 (thorough 299)'),
    Enum('sweep', sweep_cases, check_sweep,
         'every field at powers of two, of ten and literals of the code with neighbours, pairs of related '
         'fields likewise, all flags x checksums x typesizes, every byte of a header at all 256 values'),
    Gen('headers', valid_header(), check_header, 6000, 200000,
        'valid bloscpack headers, all limits; non-trivial: a known positive chunk count'),
    Gen('metadata headers', valid_meta(), check_meta, 4000, 150000,
        'valid metadata headers, all limits; non-trivial: not empty'),
    Gen('buffers', buffers(), check_buffer, 8000, 300000,
        'random and mutated buffers, accepted exactly if valid; non-trivial: 32 bytes'),
]
