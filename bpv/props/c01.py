"""C01: packing then unpacking returns exactly the original bytes."""
from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed

LEVEL = 'exploration'
ASSUMPTIONS = ['blosc (python-blosc 1.11.4) compresses and decompresses correctly',
               'metadata equality is JSON equality that tells 1, 1.0 and True apart']


@st.composite
def cases(draw, big=True):
    p = draw(gen.plan(big=big))
    c = {'plan': p, 'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
         'meta': draw(gen.metadata_spec()) if draw(st.integers(0, 2)) == 0 else None,
         'writer': draw(st.sampled_from(sorted(api.WRITERS))),
         'reader': draw(st.sampled_from(sorted(api.READERS))),
         'extra': draw(st.sampled_from(sorted(api.READERS))),
         'threads': draw(st.sampled_from([1, 1, 1, 2, 4]))}
    if c['meta'] is not None:
        c['margs'] = draw(gen.metadata_args_spec())
    return c


def kwargs(c):
    kw = dict(gen.chunk_kw(c['plan']))
    if c['blosc'] is not None:
        kw['blosc_args'] = gen.make_blosc_args(c['blosc'])
    if c['bp'] is not None:
        kw['bloscpack_args'] = gen.make_bloscpack_args(c['bp'])
    if c['meta'] is not None:
        kw['metadata'] = gen.make_metadata(c['meta'])
        if c.get('margs') is not None:
            kw['metadata_args'] = gen.make_metadata_args(c['margs'])
    return kw


def check(c, ctx):
    data = gen.make_data(c['plan']['data'])
    meta = gen.make_metadata(c['meta'])
    n, chunk, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    ctx.label('writer=' + c['writer'], 'reader=' + c['reader'], 'size=0' if not data else None,
              'many chunks' if n > 255 else 'multi chunk' if n > 1 else 'one chunk',
              'partial last' if n > 1 and last != chunk else None,
              'default chunk' if c['plan']['chunk'] is None else
              'string chunk' if isinstance(c['plan']['chunk'], str) else None,
              'cname=' + gen.effective_blosc(c['blosc'])['cname'],
              'checksum=' + gen.effective_bloscpack(c['bp'])['checksum'],
              'no offsets' if not gen.effective_bloscpack(c['bp'])['offsets'] else None)
    ctx.nontrivial(n > 1)
    api.blosc.set_nthreads(c['threads'])
    try:
        with must_succeed('packing with %s' % c['writer']):
            packed = api.WRITERS[c['writer']](ctx, data, **kwargs(c))
        for r in (c['reader'], c['extra']):
            with must_succeed('unpacking with %s' % r):
                got, gmeta = api.READERS[r](ctx, packed)
            expect_eq(got, data, 'bytes restored by %s after %s' % (r, c['writer']))
            expect(ref.strict_eq(gmeta, meta), 'metadata restored by %s: %r', r, gmeta)
    finally:
        api.blosc.set_nthreads(1)


def small_cases(tier):
    top = 40 if tier == 'quick' else 80
    for size in range(0, top + 1):
        for chunk in range(1, size + 2):
            yield {'size': size, 'chunk': chunk}


def check_small(c, ctx):
    data = bytes((7 * i + 3) % 256 for i in range(c['size']))
    ctx.nontrivial(c['size'] > c['chunk'])
    for ck in ('None', 'crc32'):
        with must_succeed('packing'):
            packed = api.bp.pack_bytes_to_bytes(
                data, chunk_size=c['chunk'],
                bloscpack_args=api.bp.BloscpackArgs(checksum=ck, offsets=ck == 'None'))
            got, meta = api.bp.unpack_bytes_from_bytes(packed)
        expect_eq(got, data, 'restored bytes')
        expect_eq(meta, None, 'metadata')


# ------------------------------------------------- sizes and counts at boundaries

def boundary_cases(tier):
    top = 2 ** 23 if tier == 'quick' else 2 ** 27
    pairs = sorted(set(zip(sorted(api.WRITERS), sorted(api.READERS) * 2)))
    k = 0
    for n in words.around(1, top):
        # n as the size of one chunk, of the last chunk, of the content
        for size, chunk in ((n, n), (2 * n + 1, n), (n, max(1, n // 3)), (n + max(1, n // 2), n)):
            k += 1
            w, r = pairs[k % len(pairs)]
            yield {'size': size, 'chunk': chunk, 'kind': ('rnd', 'mixed', 'near', 'arith4', 'zero')[k % 5],
                   'writer': w, 'reader': r, 'bp': k % 5}
    for n in ([2 ** 16 + 3, 10 ** 5 + 1, 2 ** 17 + 1] if tier == 'quick' else [300001, 10 ** 6 + 1]):
        # counts of chunks that fit no smaller integer
        for bp in (0, 2):
            k += 1
            w, r = pairs[k % len(pairs)]
            yield {'size': n, 'chunk': 1, 'kind': 'rnd', 'writer': w, 'reader': r, 'bp': bp}
    for n in words.spread(words.around(1, 5000 if tier == 'quick' else 200000), 100):
        for chunk in (1, 7):
            k += 1
            w, r = pairs[k % len(pairs)]
            yield {'size': n * chunk, 'chunk': chunk, 'kind': ('rnd', 'near')[k % 2], 'writer': w, 'reader': r, 'bp': k % 5}


BPS = [{'offsets': True, 'checksum': 'adler32'}, {'offsets': True, 'checksum': 'None', 'max_app': {'int': 0}},
       {'offsets': False, 'checksum': 'None'}, {'offsets': False, 'checksum': 'sha512'}, None]


def check_boundary(c, ctx):
    data = gen.make_data({'size': c['size'], 'kind': c['kind'], 'seed': c['size'], 'period': c['chunk']})
    ctx.nontrivial(c['size'] > c['chunk'])
    with must_succeed('packing with %s' % c['writer']):
        packed = api.WRITERS[c['writer']](ctx, data, chunk_size=c['chunk'], blosc_args=api.bp.BloscArgs(
            clevel=1), bloscpack_args=gen.make_bloscpack_args(BPS[c['bp']]))
    with must_succeed('unpacking with %s' % c['reader']):
        got, meta = api.READERS[c['reader']](ctx, packed)
    expect_eq(got, data, 'bytes restored by %s after %s' % (c['reader'], c['writer']))
    expect_eq(meta, None, 'metadata')


# ------------------------------------------------- every combination of settings

def setting_cases(tier):
    data = [{'size': 0}, {'size': 1}, {'size': 700, 'chunk': 700}, {'size': 700, 'chunk': 100},
            {'size': 701, 'chunk': 100}]
    for cname in gen.CNAMES:
        for clevel in range(10):
            for shuffle in (0, 1, 2):
                for typesize in (1, 2, 4, 8, 3, 16, 255):
                    for d in data:
                        yield dict(d, blosc={'cname': cname, 'clevel': clevel, 'shuffle': shuffle,
                                             'typesize': typesize})


def check_setting(c, ctx):
    ctx.nontrivial(c['size'] > c.get('chunk', 1))
    for kind in ('rnd', 'zero', 'arith2'):
        data = gen.make_data({'size': c['size'], 'kind': kind, 'seed': 3})
        with must_succeed('packing and unpacking'):
            got, _ = api.bp.unpack_bytes_from_bytes(api.bp.pack_bytes_to_bytes(
                data, chunk_size=c.get('chunk', '1M'), blosc_args=gen.make_blosc_args(c['blosc'])))
        expect_eq(got, data, 'restored %s bytes' % kind)


PARTS = [
    Enum('small', small_cases, check_small,
         'every (size, chunk size) pair up to a small bound; non-trivial: more than one chunk'),
    Enum('boundaries', boundary_cases, check_boundary,
         'chunk, content and last-chunk sizes (up to 8 MiB, thorough 128 MiB) and chunk counts at powers of '
         'two, of ten and literals of the code, each with its neighbours; non-trivial: several chunks'),
    Enum('settings', setting_cases, check_setting,
         'every codec x level x filter x seven typesizes x five shapes of content; non-trivial: several chunks'),
    Gen('roundtrip', cases(), check, 2400, 60000,
        'random content x chunking x all arguments x every writer/reader entry point; '
        'non-trivial: the data spans more than one chunk'),
]
