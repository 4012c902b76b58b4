"""C05: every file valid under the documented format can be read."""
import json

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, ndgen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused
from .c03 import compare

import bloscpack.exceptions as exc

ASSUMPTIONS = ['files are written by the independent encoder bpv/ref.py from the README format',
               'JSON text may use any whitespace and any UTF-8 (RFC 8259)']


@st.composite
def chunk_spec(draw, size=None):
    n = draw(gen.weighted((2, st.integers(0, 40)), (3, st.integers(0, 600)),
                          (1, st.integers(0, 20000)))) if size is None else size
    return {'d': draw(gen.data_of_size(n)), 'ts': draw(gen.typesizes),
            'cl': draw(st.integers(0, 9)), 'sh': draw(st.sampled_from([0, 1, 2])),
            'cn': draw(gen.codec_names)}


def make_chunk(s):
    data = gen.make_data(s['d'])
    return data, api.blosc.compress(data, typesize=s['ts'], clevel=s['cl'], shuffle=s['sh'],
                                    cname=s['cn'])


json_styles = st.sampled_from([
    {}, {'indent': 2}, {'ensure_ascii': False}, {'separators': [' , ', ' : ']},
    {'separators': [',', ':']}, {'indent': 1, 'ensure_ascii': False}])


@st.composite
def meta_spec(draw, value=None):
    v = draw(gen.json_value) if value is None else value
    style = draw(json_styles)
    codec = draw(st.sampled_from(['None', 'zlib']))
    return {'value': v, 'style': style, 'blanks': draw(st.sampled_from([['', '']] * 4 + [[' ', ''], ['', '\n'], ['\n\t', '\r\n'],
                                                                                  ['    ', ' ' * 20]])), 'codec': codec, 'level': draw(st.integers(0, 9)),
            'checksum': draw(gen.meta_checksums), 'reserve': draw(st.sampled_from([0, 0, 1, 7, 64, 1000])),
            'filler': draw(st.sampled_from(['00', 'ff', '7b7d', '20'])),
            'user_codec': draw(st.sampled_from(['', 'ff' * 8, '78797a0000000001']))}


def make_meta(s, dumps=None):
    if s is None:
        return None
    kw = dict(s['style'])
    if 'separators' in kw:
        kw['separators'] = tuple(kw['separators'])
    try:
        raw = json.dumps(s['value'], **kw).encode('utf-8')
    except UnicodeEncodeError:  # lone surrogates have no UTF-8 form: escape them
        raw = json.dumps(s['value']).encode('utf-8')
    # blanks around a JSON value belong to the text
    before, after = s.get('blanks', ['', ''])
    raw = before.encode() + raw + after.encode()
    return {'raw': raw, 'codec': s['codec'], 'level': s['level'], 'checksum': s['checksum'],
            'reserve': s['reserve'], 'filler': bytes.fromhex(s['filler']),
            'user_codec': bytes.fromhex(s['user_codec'])}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['uniform', 'uniform', 'nonuniform', 'nonuniform', 'zero chunks',
                                 'one']))
    if kind == 'uniform':
        cs = draw(st.integers(1, 300))
        n = draw(st.integers(1, 12))
        chunks = [draw(chunk_spec(size=cs)) for _ in range(n - 1)] + \
            [draw(chunk_spec(size=draw(st.integers(1, cs))))]
    elif kind == 'zero chunks':
        chunks = []
    else:
        chunks = draw(st.lists(chunk_spec(), min_size=1, max_size=1 if kind == 'one' else 10))
    n = len(chunks)
    offs = draw(st.sampled_from([None, 'exact', 'exact', 'unknown', 'some']))
    if offs == 'some':
        offs = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    c = {'chunks': chunks, 'offsets': offs,
         'max_app': draw(st.sampled_from([0, 0, 1, 3, 17, 300])) if offs is not None else 0,
         'checksum': draw(st.sampled_from(gen.CHECKSUMS)), 'typesize': draw(gen.typesizes),
         'cs': draw(st.sampled_from(['true', 'true', 'unknown', 'last unknown', 'both unknown'])),
         'meta': draw(st.one_of(st.none(), meta_spec(), meta_spec())),
         'readers': draw(st.lists(st.sampled_from(sorted(api.READERS)), min_size=2, max_size=2)),
         'trailing': 0}
    return c


def sizes(c, datas):
    """chunk-size and last-chunk as a foreign writer might record them."""
    if not datas:
        return (0, 0) if c['cs'] == 'true' else (-1, -1)
    lens = [len(d) for d in datas]
    uniform = len(set(lens[:-1])) <= 1 and (len(lens) == 1 or lens[-1] <= lens[0])
    cs, last = (lens[0], lens[-1]) if uniform else (-1, -1)
    if c['cs'] in ('unknown', 'both unknown'):
        cs = -1
    if c['cs'] in ('last unknown', 'both unknown'):
        last = -1
    return cs, last


def build(c):
    pairs = [make_chunk(s) for s in c['chunks']]
    datas = [d for d, _ in pairs]
    cs, last = sizes(c, datas)
    raw = ref.encode_file([z for _, z in pairs], checksum=c['checksum'], offsets=c['offsets'],
                          max_app=c['max_app'], typesize=c['typesize'], chunk_size=cs,
                          last_chunk=last, meta=make_meta(c['meta']))
    return raw, b''.join(datas)


def check(c, ctx):
    raw, data = build(c)
    # the encoder has to agree with the parser before the code is judged
    f = ref.parse(raw, strict=False)
    assert f.data == data and f.end == len(raw)
    meta = None if c['meta'] is None else json.loads(make_meta(c['meta'])['raw'].decode('utf-8'))
    lens = [len(gen.make_data(s['d'])) for s in c['chunks']]
    cs, last = sizes(c, [b'x' * n for n in lens])
    ctx.label('nonuniform' if len(set(lens[:-1])) > 1 else None,
              'chunk-size unknown' if cs == -1 else None, 'last unknown' if last == -1 else None,
              'offsets ' + (c['offsets'] if isinstance(c['offsets'], str) else
                            'none' if c['offsets'] is None else 'some'),
              'empty chunk' if 0 in lens else None, 'no chunks' if not lens else None,
              'mixed codecs' if len(set(s['cn'] for s in c['chunks'])) > 1 else None,
              'reserved metadata' if c['meta'] and c['meta']['reserve'] else None,
              'utf-8 metadata' if c['meta'] and not make_meta(c['meta'])['raw'].isascii() else None,
              'null metadata' if c['meta'] and c['meta']['value'] is None else None)
    ctx.nontrivial(len(c['chunks']) > 1)
    for r in c['readers']:
        with must_succeed('reading a valid file with %s' % r):
            got, gmeta = api.READERS[r](ctx, raw)
        expect_eq(got, data, 'content read by %s' % r)
        expect(ref.strict_eq(gmeta, meta), 'metadata read by %s: %r instead of %r', r, gmeta, meta)


# ------------------------------------------------------------- arrays

def legacy(descr):
    """dtype.descr as bloscpack < 0.7.2 serialized it: lists instead of tuples."""
    if isinstance(descr, (list, tuple)):
        return [legacy(d) for d in descr]
    return descr


@st.composite
def nd_cases(draw):
    a = draw(ndgen.array_spec(max_items=200, depth=1))
    a['layout'] = 'C'
    return {'a': a, 'legacy': draw(st.booleans()), 'order': draw(st.sampled_from(['C', 'F'])),
            'cut': draw(st.lists(st.integers(0, 10 ** 6), max_size=5)),
            'meta': draw(meta_spec(value=0)), 'checksum': draw(st.sampled_from(gen.CHECKSUMS)),
            'offsets': draw(st.sampled_from([None, 'exact', 'unknown'])),
            'args': draw(chunk_spec(size=0)),
            'reader': draw(st.sampled_from(sorted(api.ND_READERS)))}


def check_nd(c, ctx):
    a = ndgen.make_array(c['a'])
    dt = a.dtype
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    raw = a.tobytes(order=c['order'])
    if c['legacy']:
        if dt.names is None:
            descr = dt.str
        else:
            descr = legacy(dt.descr)
    else:
        descr = repr(dt.str if dt.names is None else dt.descr)
    ctx.label('legacy list' if isinstance(descr, list) else
              'legacy string' if c['legacy'] and dt.names is None else 'current',
              'order ' + c['order'])
    meta = dict(c['meta'], value={'dtype': descr, 'shape': list(a.shape), 'order': c['order'],
                                  'container': 'numpy'})
    # any partition of the bytes is a valid chunking, items may be split
    cuts = sorted(set(x % (len(raw) + 1) for x in c['cut']))
    bounds = [0] + cuts + [len(raw)]
    parts = [raw[i:j] for i, j in zip(bounds, bounds[1:])]
    s = c['args']
    packed = ref.encode_file(
        [api.blosc.compress(p, typesize=s['ts'], clevel=s['cl'], shuffle=s['sh'], cname=s['cn'])
         for p in parts],
        checksum=c['checksum'], offsets=c['offsets'], typesize=dt.itemsize,
        meta=make_meta(meta))
    ctx.nontrivial(len(parts) > 1)
    with must_succeed('reading an array with %s' % c['reader']):
        b = api.ND_READERS[c['reader']](ctx, packed)
    compare_legacy(b, a, c)


def compare_legacy(b, a, c):
    expect(isinstance(b, np.ndarray) and b.dtype == a.dtype, 'dtype %r instead of %r',
           getattr(b, 'dtype', b), a.dtype)
    expect_eq(b.shape, a.shape, 'shape')
    expect(ndgen.bits(b) == ndgen.bits(a), 'element bits differ')
    expect(b.flags['F_CONTIGUOUS'] if c['order'] == 'F' else b.flags['C_CONTIGUOUS'],
           'order %s lost', c['order'])


# ------------------------------------------------------------- refusals

@st.composite
def version_cases(draw):
    return {'base': draw(cases()), 'version': draw(st.integers(0, 255).filter(lambda v: v != 3)),
            'reader': draw(st.sampled_from(sorted(api.READERS) + sorted(api.ND_READERS) + ['append'])),
            'unknown': draw(st.integers(0, 4)) == 0}


def check_version(c, ctx):
    raw, data = build(c['base'])
    raw = bytearray(raw)
    ctx.nontrivial()
    if c['unknown']:
        # chunk count unknown: nothing can be read, so it must not look empty
        if c['reader'] in api.READERS and not c['base']['offsets']:
            ctx.label('unknown nchunks')
            raw[16:24] = b'\xff' * 8
            raw[24:32] = bytes(8)
            with refused('reading a file with an unknown number of chunks'):
                api.READERS[c['reader']](ctx, bytes(raw))
        return
    raw[4] = c['version']
    raw = bytes(raw)
    ctx.label('reader=' + c['reader'])
    with refused('reading a file of version %d with %s' % (c['version'], c['reader']),
                 exc.FormatVersionMismatch):
        if c['reader'] == 'append':
            import io
            api.append_mod.append_fp(io.BytesIO(raw), io.BytesIO(b'abc'), 3)
        elif c['reader'] in api.READERS:
            api.READERS[c['reader']](ctx, raw)
        else:
            api.ND_READERS[c['reader']](ctx, raw)


# ------------------------------------------------------------- counts and sizes at boundaries

def grid_cases(tier):
    quick = tier == 'quick'
    readers = sorted(api.READERS)
    k = 0

    def case(**kw):
        c = {'n': 2, 'cs': 5, 'last': 3, 'app': 0, 'offsets': 'exact', 'meta': None, 'reserve': 0, 'k': k,
             'reader': readers[k % len(readers)]}
        c.update(kw)
        return c
    for app in sorted(set(range(0, 70)) | set(words.around(70, 2 ** 17 if quick else 2 ** 22))):
        for n in (1, 3):
            k += 1
            yield case(n=n, app=app, offsets=('exact', 'unknown')[k % 2])
    for reserve in sorted(set(range(0, 40)) | set(words.around(40, 2 ** 18 if quick else 2 ** 22))):
        k += 1
        yield case(reserve=reserve, meta=20)
        yield case(reserve=reserve, meta=20, offsets=None)
    for meta in sorted(set(range(2, 70)) | set(words.around(70, 2 ** 18 if quick else 2 ** 22))):
        k += 1
        yield case(meta=meta, reserve=k % 3)
    for n in sorted(set(range(0, 70)) | set(words.around(70, 3000 if quick else 70000))):
        for offsets in ('exact', None):
            k += 1
            yield case(n=n, offsets=offsets, app=k % 3 if offsets else 0)
    for cs in words.around(1, 2 ** 21 if quick else 2 ** 25):
        k += 1
        yield case(cs=cs, last=1 + cs // 2, n=2 + k % 2)
        yield case(cs=max(1, cs // 2), last=cs, n=3)          # the last chunk is the largest


def check_grid(c, ctx):
    chunks, datas = [], []
    k = c['k']
    for i in range(c['n']):
        size = c['last'] if i == c['n'] - 1 else c['cs']
        d = gen.make_data({'size': size, 'kind': 'rnd' if i % 2 else 'few', 'seed': i})
        datas.append(d)
        chunks.append(api.blosc.compress(d, typesize=1 + (k + i) % 9, clevel=(k + i) % 10, shuffle=i % 3,
                                         cname=gen.CNAMES[(k + i) % len(gen.CNAMES)]))
    meta = None
    value = None
    if c['meta'] is not None:
        value = 'x' * (c['meta'] - 2)
        meta = {'raw': json.dumps(value).encode(), 'codec': ('None', 'zlib')[k % 2], 'reserve': c['reserve'],
                'checksum': gen.CHECKSUMS[(k // 2) % len(gen.CHECKSUMS)], 'filler': b'\xaa'}
    uniform = c['last'] <= c['cs'] and c['n']
    raw = ref.encode_file(chunks, checksum=gen.CHECKSUMS[k % len(gen.CHECKSUMS)], offsets=c['offsets'],
                          max_app=c['app'], typesize=1 + k % 255,
                          chunk_size=(c['cs'] if c['n'] > 1 else c['last']) if uniform and k % 4 else -1,
                          last_chunk=c['last'] if uniform and k % 3 else -1, meta=meta)
    ctx.nontrivial(c['n'] > 1)
    with must_succeed('reading a valid file with %s' % c['reader']):
        got, gmeta = api.READERS[c['reader']](ctx, raw)
    expect_eq(got, b''.join(datas), 'content read by %s' % c['reader'])
    expect(ref.strict_eq(gmeta, value), 'metadata read by %s: %.100r', c['reader'], gmeta)


PARTS = [
    Enum('grid', grid_cases, check_grid,
         'reserved offsets, reserved and used metadata bytes, chunk counts and chunk sizes: every small value, '
         'then powers of two, of ten and literals of the code with neighbours; non-trivial: more than one chunk'),
    Gen('foreign', cases(), check, 2400, 60000,
        'files from an independent encoder using every freedom of the format; non-trivial: more '
        'than one chunk'),
    Gen('ndarray', nd_cases(), check_nd, 1200, 30000,
        'array files with current and legacy dtype descriptions and arbitrary chunk cuts; '
        'non-trivial: more than one chunk'),
    Gen('version', version_cases(), check_version, 700, 10000,
        'files of other versions or with an unknown chunk count; all non-trivial'),
]
