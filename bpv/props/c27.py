"""C27: the named building blocks do what their names say."""
import hashlib
import io
import json
import os
import struct
import warnings
import zlib

import blosc
import numpy as np
from hypothesis import strategies as st

import bloscpack.checksums as checksums
import bloscpack.exceptions as exc
import bloscpack.headers as headers
import bloscpack.metacodecs as metacodecs
import bloscpack.serializers as serializers

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

ASSUMPTIONS = ['zlib, hashlib, struct and json are the meaning of the names',
               'the flag named split_blocks is bit 4 of the flags, as the tests of the repository have it']

DIGESTS = [('None', 0, lambda d: b''), ('adler32', 4, lambda d: struct.pack('<I', zlib.adler32(d) & 0xffffffff)),
           ('crc32', 4, lambda d: struct.pack('<I', zlib.crc32(d) & 0xffffffff))] + \
    [(n, getattr(hashlib, n)().digest_size, lambda d, n=n: getattr(hashlib, n)(d).digest())
     for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')]
NEAR = ['', 'none', 'NONE', 'MD5', 'md5 ', ' md5', 'md4', 'sha', 'sha3', 'sha512 ', 'adler', 'Adler32', 'crc', 'crc32c',
        'zlib ', 'Zlib', 'ZLIB', 'gzip', 'JSON', 'json', 'blosclz', '0', 'md5\0', 'None\n']


# ------------------------------------------------------------ digests

def digest_cases(tier):
    k = 0
    for n in words.around(0, 2 ** 21 if tier == 'quick' else 2 ** 25):
        k += 1
        yield {'data': {'size': n, 'kind': ('rnd', 'zero', 'few')[k % 3], 'seed': k}, 'which': None if n < 5000 else k % 9}
    # whole multiples of large block sizes
    for n in [2 ** 20, 2 ** 21, 3 * 2 ** 20, 2 ** 22, 5 * 2 ** 20, 2 ** 23, 10 ** 6, 10 ** 7, 2 ** 24] + \
            ([2 ** 26, 2 ** 27 + 5] if tier != 'quick' else []):
        for which in range(9):
            yield {'data': {'size': n, 'kind': ('rnd', 'zero')[which % 2], 'seed': n}, 'which': which}


def check_digest(c, ctx):
    data = gen.make_data(c['data'])
    ctx.nontrivial(len(data) > 1)
    for i, (name, size, fn) in enumerate(DIGESTS):
        if c['which'] not in (None, i):
            continue
        with must_succeed('the checksum %s of %d bytes' % (name, len(data))):
            impl = checksums.CHECKSUMS_LOOKUP[name]
            got = impl(data)
            other = checksums.CHECKSUMS[i]
            again = other(data)
        expect_eq((impl.name, impl.size, other.name, other.size), (name, size, name, size), 'name and size of checksum %d' % i)
        expect_eq(got, fn(data), '%s of %d bytes' % (name, len(data)))
        expect_eq(again, got, '%s of the same %d bytes again' % (name, len(data)))


# ------------------------------------------------------------ metadata codecs and serializers

@st.composite
def codec_cases(draw):
    return {'data': draw(gen.data_of_size(draw(st.integers(0, 3000)))), 'level': draw(st.integers(0, 9)),
            'json': draw(gen.json_value)}


def check_codec(c, ctx):
    data, level = gen.make_data(c['data']), c['level']
    ctx.nontrivial(len(data) > 1)
    with must_succeed('metadata codecs with %d bytes at level %d' % (len(data), level)):
        none, z = metacodecs.CODECS_LOOKUP['None'], metacodecs.CODECS_LOOKUP['zlib']
        stored, packed = none.compress(data, level), z.compress(data, level)
        back = none.decompress(data), z.decompress(packed), z.decompress(zlib.compress(data, 9 - level))
    expect_eq(stored, data, 'no codec')
    expect_eq(packed, zlib.compress(data, level), 'zlib at level %d' % level)
    expect_eq(back, (data, data, data), 'decompressed data')
    with refused('data that is not compressed'):
        z.decompress(b'\0' + data)
    v = c['json']
    with must_succeed('serializing %r' % (v,)):
        js = serializers.SERIALIZERS_LOOKUP[b'JSON']
        text = js.dumps(v)
        back = js.loads(text)
        foreign = js.loads(json.dumps(v, indent=2))
    expect(ref.strict_eq(json.loads(text), v), 'serialized %r: %r', v, text)
    expect(ref.strict_eq(back, v) and ref.strict_eq(foreign, v), 'deserialized %r: %r, %r', v, back, foreign)


# ------------------------------------------------------------ names

@st.composite
def name_cases(draw):
    return {'name': draw(st.one_of(st.sampled_from(NEAR + [d[0] for d in DIGESTS] + ['None', 'zlib', 'JSON']),
                                   st.text(max_size=6))), 'how': draw(st.integers(0, 3))}


def check_name(c, ctx):
    name = c['name']
    raw = name.encode('utf-8', 'surrogatepass')
    ctx.nontrivial()
    for what, fn, ok, e, arg in (
            ('checksum', checksums.check_valid_checksum, [d[0] for d in DIGESTS], exc.NoSuchChecksum, name),
            ('codec', metacodecs.check_valid_codec, ['None', 'zlib'], exc.NoSuchCodec, name),
            ('serializer', serializers.check_valid_serializer, [b'JSON'], exc.NoSuchSerializer, raw)):
        if arg in ok:
            with must_succeed('the %s %r' % (what, arg)):
                fn(arg)
        else:
            with refused('the %s %r' % (what, arg), e):
                fn(arg)
    # through the argument objects; how they refuse is not promised
    for what, make, ok, arg in (
            ('checksum', lambda: api.bp.BloscpackArgs(checksum=name), [d[0] for d in DIGESTS], name),
            ('metadata checksum', lambda: api.bp.MetadataArgs(meta_checksum=name), [d[0] for d in DIGESTS], name),
            ('metadata codec', lambda: api.bp.MetadataArgs(meta_codec=name), ['None', 'zlib'], name),
            ('magic format', lambda: api.bp.MetadataArgs(magic_format=raw), [b'JSON'], raw)):
        def pack():
            a = make()
            k = 'bloscpack_args' if isinstance(a, api.bp.BloscpackArgs) else 'metadata_args'
            return api.bp.pack_bytes_to_bytes(b'abc', metadata={'a': 1}, **{k: a})
        if arg in ok:
            with must_succeed('packing with %s %r' % (what, arg)):
                pack()
        else:
            with refused('packing with %s %r' % (what, arg)):
                pack()


def registries(tier):
    yield {}


def check_registries(c, ctx):
    ctx.nontrivial()
    expect_eq(list(checksums.CHECKSUMS_AVAIL), [d[0] for d in DIGESTS], 'available checksums')
    expect_eq([x.name for x in checksums.CHECKSUMS], [d[0] for d in DIGESTS], 'checksums in the order of their numbers')
    expect_eq([x.name for x in metacodecs.CODECS], ['None', 'zlib'], 'metadata codecs in the order of their numbers')
    expect_eq(list(metacodecs.CODECS_AVAIL), ['None', 'zlib'], 'available metadata codecs')
    expect_eq(list(serializers.SERIALIZERS_AVAIL), [b'JSON'], 'available serializers')
    for i in range(9):
        k = bytearray(ref.encode_header(nchunks=1, chunk_size=1, last_chunk=1))
        k[6] = i
        with must_succeed('decoding a header with checksum %d' % i):
            h = headers.BloscpackHeader.decode(bytes(k))
        expect_eq((h.checksum, h.checksum_impl.name), (DIGESTS[i][0], DIGESTS[i][0]), 'checksum number %d' % i)


# ------------------------------------------------------------ headers of blosc chunks

@st.composite
def blosc_cases(draw):
    how = draw(st.integers(0, 1))
    if how:
        return {'raw': draw(st.binary(min_size=16, max_size=16)).hex()}
    return {'data': draw(gen.data_of_size(draw(st.integers(0, 5000)))), 'blosc': draw(gen.blosc_spec()),
            'more': draw(st.integers(0, 3))}


def check_blosc(c, ctx):
    blosc.set_nthreads(1)
    ctx.nontrivial()
    if 'raw' in c:
        raw = bytes.fromhex(c['raw'])
    else:
        data = gen.make_data(c['data'])
        e = gen.effective_blosc(c['blosc'])
        raw = blosc.compress(data, **e)
    buf = raw[:16] if c.get('more', 0) < 2 else memoryview(raw)[:16]
    with must_succeed('decoding a blosc header'):
        h = headers.decode_blosc_header(buf)
    v = struct.unpack('<BBBBIII', raw[:16])
    names = ['version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes']
    expect_eq(list(h.items()), list(zip(names, v)), 'blosc header')
    f = v[2]
    if 'raw' in c and f >> 5 > 4:
        return
    with must_succeed('decoding the flags %d' % f):
        g = headers.decode_blosc_flags(h['flags'])
    expect_eq(dict(g), {'byte_shuffle': bool(f & 1), 'pure_memcpy': bool(f & 2), 'bit_shuffle': bool(f & 4),
                        'split_blocks': bool(f & 16), 'codec': ['blosclz', 'lz4', 'snappy', 'zlib', 'zstd'][f >> 5]},
              'flags %d' % f)
    if 'data' in c:
        expect_eq((h['typesize'], h['nbytes'], h['ctbytes']), (e['typesize'], len(data), len(raw)), 'header of a chunk')
        want = {'lz4hc': 'lz4'}.get(e['cname'], e['cname'])
        if not g['pure_memcpy'] and e['clevel']:
            expect_eq(g['codec'], want, 'codec of a chunk')


# ------------------------------------------------------------ option bits

def option_cases(tier):
    for a in range(256):
        yield {'bits': bin(a)[2:].rjust(8, '0')}
    for s in ('', '0', '0' * 7, '0' * 9, '00000002', '0000000a', '0000000 ', '-0000001', '0000000\u0661', '1' * 16, '00000011\n'):
        yield {'bits': s}


def check_options(c, ctx):
    s = c['bits']
    ctx.nontrivial()
    ok = len(s) == 8 and set(s) <= set('01')
    if ok:
        with must_succeed('the options %r' % s):
            headers.check_options(s)
    else:
        with refused('the options %r' % s, ValueError):
            headers.check_options(s)
    if ok and s[:6] == '000000':
        with must_succeed('the options %r' % s):
            got = headers.decode_options(s)
            made = headers.create_options(offsets=s[7] == '1', metadata=s[6] == '1')
        expect_eq(dict(got), {'offsets': s[7] == '1', 'metadata': s[6] == '1'}, 'options %r' % s)
        expect_eq(made, s, 'created options')
    else:
        with refused('decoding the options %r' % s, ValueError):
            headers.decode_options(s)
    if ok and s == '00000000':
        with must_succeed('metadata options'):
            headers.decode_metadata_options(s)
    else:
        with refused('decoding the metadata options %r' % s, ValueError):
            headers.decode_metadata_options(s)


# ------------------------------------------------------------ deprecated names

ALIASES = {'pack_file': 'pack_file_to_file', 'unpack_file': 'unpack_file_from_file', 'pack_bytes_file': 'pack_bytes_to_file',
           'unpack_bytes_file': 'unpack_bytes_from_file', 'pack_ndarray_file': 'pack_ndarray_to_file',
           'unpack_ndarray_file': 'unpack_ndarray_from_file', 'pack_ndarray_str': 'pack_ndarray_to_bytes',
           'unpack_ndarray_str': 'unpack_ndarray_from_bytes'}


@st.composite
def alias_cases(draw):
    return {'alias': draw(st.sampled_from(sorted(ALIASES))), 'data': draw(gen.data_of_size(4 * draw(st.integers(1, 200)))),
            'chunk': draw(st.sampled_from([None, 4, 8, 100, '1K', 0, 'x', 3])), 'bp': draw(gen.bloscpack_spec()),
            'blosc': draw(gen.blosc_spec()), 'meta': draw(gen.metadata_spec()), 'margs': draw(gen.metadata_args_spec()),
            'positional': draw(st.booleans()), 'broken': draw(st.integers(0, 5)) == 0, 'pick': draw(st.integers(0, 10 ** 6))}


def check_alias(c, ctx):
    blosc.set_nthreads(1)
    data = gen.make_data(c['data'])
    arr = np.frombuffer(data, '<i4')
    alias = c['alias']
    nd = 'ndarray' in alias
    ctx.label(alias)
    ctx.nontrivial()
    meta = gen.make_metadata(c['meta'])

    def run(name, k):
        fn = getattr(api.bp, name)
        src, out = ctx.path('in%d' % k), ctx.path('out%d' % k)
        args = []
        if name.startswith('pack'):
            args = [src] if name.startswith('pack_file') else [arr if nd else data]
            if name.startswith('pack_file'):
                api.write_file(src, data)
            if '_str' not in name and 'to_bytes' not in name:
                args.append(out)
            kw = [('chunk_size', '1M' if c['chunk'] is None else c['chunk'])]
            if not nd:
                kw.append(('metadata', meta))
            kw += [('blosc_args', gen.make_blosc_args(dict(c['blosc'] or {}, typesize=4))),
                   ('bloscpack_args', gen.make_bloscpack_args(c['bp'])), ('metadata_args', gen.make_metadata_args(c['margs']))]
        else:
            if nd:
                p = api.bp.pack_ndarray_to_bytes(arr, chunk_size=max(4, len(data) // 3 // 4 * 4))
            else:
                p = api.bp.pack_bytes_to_bytes(data, chunk_size=max(1, len(data) // 3), metadata=meta)
            if c['broken']:
                p = p[:c['pick'] % len(p)]
            args = [p]
            if '_str' not in name and 'from_bytes' not in name:
                api.write_file(src, p)
                args = [src]
                if 'file_from_file' in name or name == 'unpack_file':
                    args.append(out)
            kw = []
        kw = [x for x in kw if x[1] is not None]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            error = r = None
            try:
                r = fn(*args, **dict(kw))
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                error = '%s: %s' % (type(e).__name__, str(e).replace(src, '').replace(out, ''))
        dep = [x for x in w if issubclass(x.category, DeprecationWarning) and name in str(x.message)]
        if isinstance(r, np.ndarray):
            r = (r.dtype.str, r.shape, r.tobytes())
        content = api.read_file(out) if os.path.exists(out) else None
        return (error, r, content), dep
    got, dep = run(alias, 1)
    want, dep2 = run(ALIASES[alias], 2)
    expect(got[0] is None or want[0] is not None, '%s fails (%s), %s does not', alias, got[0], ALIASES[alias])
    expect_eq(got, want, '%s compared with %s' % (alias, ALIASES[alias]))
    # which of the two names the text of the warning has is not promised
    expect(not dep2 or dep, '%s warns of being deprecated: %s', ALIASES[alias], dep2 and dep2[0].message)


def warn_cases(tier):
    return [{'alias': a} for a in sorted(ALIASES)]


def check_warns(c, ctx):
    ctx.nontrivial()
    arr = np.arange(5)
    src, out = ctx.path('a'), ctx.path('b')

    def count(name):
        api.write_file(src, b'abc' if name.startswith('pack') else
                       api.bp.pack_ndarray_to_bytes(arr) if 'ndarray' in name else api.bp.pack_bytes_to_bytes(b'abc'))
        args = {'pack_file': [src, out], 'pack_bytes': [b'abc', out], 'unpack_file': [src, out],
                'pack_ndarray': [arr, out], 'unpack_bytes': [src], 'unpack_ndarray': [src]}[
                    '_'.join(name.split('_')[:2])]
        if name.endswith('_str') or name.endswith('to_bytes'):
            args = args[:1] if name.startswith('pack') else [api.bp.pack_ndarray_to_bytes(arr)]
        if name.endswith('from_bytes'):
            args = [api.bp.pack_ndarray_to_bytes(arr)]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with must_succeed('calling %s' % name):
                getattr(api.bp, name)(*args)
        return len([x for x in w if issubclass(x.category, DeprecationWarning)])
    old, new = count(c['alias']), count(ALIASES[c['alias']])
    expect(old, '%s does not warn of being deprecated', c['alias'])
    expect(not new, '%s warns of being deprecated', ALIASES[c['alias']])


PARTS = [
    Enum('registries', registries, check_registries, 'the registered names in the order of their numbers'),
    Enum('digests', digest_cases, check_digest, 'every checksum at sizes at boundaries; non-trivial: more than a byte'),
    Gen('codecs', codec_cases(), check_codec, 1200, 40000,
        'metadata codecs at every level and the serializer on random values; non-trivial: more than a byte'),
    Gen('names', name_cases(), check_name, 1200, 20000, 'names that are registered, nearly so, or not; all non-trivial'),
    Gen('blosc headers', blosc_cases(), check_blosc, 1500, 60000,
        'random headers and those of real chunks; all non-trivial'),
    Enum('options', option_cases, check_options, 'all option bytes and strings that are none'),
    Enum('warnings', warn_cases, check_warns, 'every deprecated name and its replacement'),
    Gen('aliases', alias_cases(), check_alias, 1200, 30000,
        'deprecated names and their replacements with the same arguments, valid or not; all non-trivial'),
]
