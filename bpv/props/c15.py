"""C15: requested compression settings are applied to every chunk."""
import io
import json

from hypothesis import strategies as st

from .. import api, gen, history, ndgen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed

ASSUMPTIONS = ['with one thread blosc is a deterministic function of its input and arguments']


def parse(packed):
    try:
        return ref.parse(packed, strict=False)
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)


def blosc_chunk(part, eff):
    return api.blosc.compress(part, typesize=eff['typesize'], clevel=eff['clevel'],
                              shuffle=int(eff['shuffle']), cname=eff['cname'])


def check_chunks(chunks, parts, eff, what):
    for k, (c, part) in enumerate(zip(chunks, parts)):
        if c.compressed != blosc_chunk(part, eff):
            raise Violation('%s: chunk %d (%d bytes) is not what blosc makes of it with %r: header %s instead of %s'
                            % (what, k, len(part), eff, c.compressed[:16].hex(),
                               blosc_chunk(part, eff)[:16].hex()))


def check_overhead(packed, f, data_size):
    h = f.header
    ds = ref.DIGEST_SIZE[h.checksum]
    meta = 0
    if f.meta_header is not None:
        meta = 32 + f.meta_header.max_size + ref.DIGEST_SIZE[f.meta_header.checksum]
    bound = data_size + 32 + meta + (8 * (h.nchunks + h.max_app) if h.offsets else 0) + h.nchunks * (16 + ds)
    expect(len(packed) <= bound, 'file of %d bytes for %d bytes of input, the documented overhead allows %d',
           len(packed), data_size, bound)


@st.composite
def cases(draw):
    return {'plan': draw(gen.plan(max_chunks=20)), 'blosc': draw(gen.blosc_spec()),
            'bp': draw(gen.bloscpack_spec()), 'meta': draw(gen.metadata_spec()) if draw(st.integers(0, 3)) == 0 else None,
            'writer': draw(st.sampled_from(sorted(api.WRITERS)))}


def check(c, ctx):
    data = gen.make_data(c['plan']['data'])
    eff = gen.effective_blosc(c['blosc'])
    with must_succeed('packing'):
        packed = api.WRITERS[c['writer']](
            ctx, data, metadata=gen.make_metadata(c['meta']), blosc_args=gen.make_blosc_args(c['blosc']),
            bloscpack_args=gen.make_bloscpack_args(c['bp']), **gen.chunk_kw(c['plan']))
    f = parse(packed)
    n, cs, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    parts = [data[i * cs:(i + 1) * cs] for i in range(n)]
    expect_eq(len(f.chunks), n, 'number of chunks')
    check_chunks(f.chunks, parts, eff, c['writer'])
    expect_eq(f.header.typesize, eff['typesize'], 'typesize in the header')
    check_overhead(packed, f, len(data))
    ctx.label('defaults' if c['blosc'] is None else 'partial' if len(c['blosc']) < 4 else 'all given',
              'codec %s' % eff['cname'], 'shuffle %r' % eff['shuffle'], 'level %d' % eff['clevel'],
              'incompressible' if len(packed) > len(data) + 32 else None)
    ctx.nontrivial(n > 1 and len(data) > 16)


@st.composite
def nd_cases(draw):
    return {'a': draw(ndgen.array_spec(max_items=500, big=True)), 'items': draw(st.integers(1, 120)),
            'default_chunk': draw(st.booleans()), 'blosc': draw(gen.blosc_spec()),
            'bp': draw(gen.bloscpack_spec()), 'writer': draw(st.sampled_from(sorted(api.ND_WRITERS)))}


def check_nd(c, ctx):
    a = ndgen.make_array(c['a'])
    eff = dict(gen.effective_blosc(c['blosc']), typesize=a.itemsize)
    kw = {}
    if not c['default_chunk'] or (2 ** 20 % a.itemsize and a.nbytes > 2 ** 20):
        items = c['items'] if a.size < 5000 else max(c['items'], a.size // 7)
        kw['chunk_size'] = items * a.itemsize
    with must_succeed('packing an array'):
        packed = api.ND_WRITERS[c['writer']](
            ctx, a, blosc_args=gen.make_blosc_args(c['blosc']),
            bloscpack_args=gen.make_bloscpack_args(c['bp']), **kw)
    f = parse(packed)
    expect_eq(f.header.typesize, a.itemsize, 'typesize in the header')
    check_chunks(f.chunks, f.parts, eff, c['writer'])
    check_overhead(packed, f, a.nbytes)
    ctx.label('itemsize %d' % a.itemsize, 'typesize requested' if c['blosc'] and 'typesize' in c['blosc'] else None)
    ctx.nontrivial(len(f.chunks) > 1)


@st.composite
def append_cases(draw):
    i = draw(history.init_files())
    i['max_app'] = draw(st.sampled_from([1, 3, 5, 20]))
    i['max_app_spec'] = None
    op = draw(history.append_op())
    return {'init': i, 'ops': draw(st.lists(history.append_op(), max_size=2)), 'op': op}


def check_append(c, ctx):
    r = history.Runner(c, ctx)
    for k, op in enumerate(c['ops']):
        r.step(k, op)
    m, op = r.m, c['op']
    n = history.resolve_size(op['size'], m)
    exp = history.expected(m, n)
    if exp is None:
        return
    new = gen.make_data({'size': n, 'kind': op['kind'], 'seed': op['seed']})
    before = parse(r.raw)
    eff = {'typesize': before.header.typesize, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}
    if op['blosc'] is not None:
        eff.update((k, v) for k, v in op['blosc']['v'].items() if v is not None)
    if op['how'] == 'cli':
        if not op['blosc'] or op['blosc']['v'].get('typesize') is None:
            eff['typesize'] = 8   # the default of the command line
        if eff['shuffle'] not in (True, False):
            eff['shuffle'] = bool(eff['shuffle'])
        after, res = history.cli_append(r.raw, new, op['blosc'], ctx)
        err = res if res.status != 0 else None
    else:
        after, err = history.do_append(r.raw, new, op['how'], history.make_append_blosc(op['blosc']), ctx)
    expect(err is None, 'append failed: %r', err)
    f = parse(after)
    old = len(before.chunks)
    # earlier chunks stay as they are, the last one and all new ones are as requested
    for k in range(old - 1):
        expect_eq(f.chunks[k].compressed, before.chunks[k].compressed, 'earlier chunk %d' % k)
    check_chunks(f.chunks[old - 1:], f.parts[old - 1:], eff, 'append through ' + op['how'])
    ctx.label('rewrites last chunk', 'new chunks' if len(f.chunks) > old else None, 'through ' + op['how'],
              'typesize of the file' if op['blosc'] is None or op['blosc']['v'].get('typesize') is None else None)
    ctx.nontrivial(n > 0)
    check_overhead(after, f, len(f.data))


# ------------------------------------------------------- every combination of settings

def grid(tier):
    for cn in gen.CNAMES:
        for cl in range(10):
            for sh in (False, True, 0, 1, 2):
                yield {'cname': cn, 'clevel': cl, 'shuffle': sh}


GRID_DATA = bytes(range(256)) * 12 + bytes(3000) + gen.rnd_bytes(3, 3100)


def check_grid(c, ctx):
    ctx.nontrivial()
    for ts in (1, 4, 8, 255):
        eff = dict(c, typesize=ts)
        with must_succeed('packing'):
            p = api.bp.pack_bytes_to_bytes(GRID_DATA, chunk_size=4000, blosc_args=api.bp.BloscArgs(**eff))
        f = parse(p)
        check_chunks(f.chunks, [GRID_DATA[k:k + 4000] for k in range(0, len(GRID_DATA), 4000)], eff, 'pack')
        check_overhead(p, f, len(GRID_DATA))
        t = io.BytesIO(p)
        with must_succeed('appending'):
            api.append_mod.append_fp(t, io.BytesIO(GRID_DATA[:5000]), 5000, eff)
        g = parse(t.getvalue())
        check_chunks(g.chunks[len(f.chunks) - 1:], g.parts[len(f.chunks) - 1:], eff, 'append')


# ------------------------------------------------------- sizes at boundaries

def size_cases(tier):
    k = 0
    for n in words.around(1, 2 ** 20 + 1 if tier == 'quick' else 2 ** 25):
        for cs, size in ((n, n), (n, 2 * n + n // 2), (max(1, n // 3), n)):
            k += 1
            yield {'cs': cs, 'size': size, 'k': k}
    for n in sorted(set(range(1, 40)) | set(words.around(40, 1100 if tier == 'quick' else 70000))):
        k += 1
        yield {'cs': 20, 'size': 20 * n - k % 20, 'k': k}


def check_size(c, ctx):
    k = c['k']
    eff = {'typesize': 1 + k % 17, 'clevel': k % 10, 'shuffle': k % 3, 'cname': gen.CNAMES[k % len(gen.CNAMES)]}
    if c['size'] > 2 ** 19:
        eff['clevel'] %= 4
    data = gen.make_data({'size': c['size'], 'kind': ('few', 'rnd', 'near', 'arith4', 'zero')[k % 5], 'seed': k,
                          'period': c['cs']})
    names = sorted(api.WRITERS)
    with must_succeed('packing'):
        p = api.WRITERS[names[k % len(names)]](ctx, data, chunk_size=c['cs'], blosc_args=gen.make_blosc_args(eff))
    f = parse(p)
    check_chunks(f.chunks, [data[i:i + c['cs']] for i in range(0, len(data), c['cs'])], eff, 'pack')
    check_overhead(p, f, len(data))
    ctx.nontrivial(len(f.chunks) > 1)
    if c['size'] < 2 ** 17:
        t = io.BytesIO(p)
        with must_succeed('appending'):
            api.append_mod.append_fp(t, io.BytesIO(data), len(data), eff if k % 2 else None)
        if not k % 2:
            eff = dict(gen.BLOSC_DEFAULTS, typesize=f.header.typesize)
        g = parse(t.getvalue())
        check_chunks(g.chunks[len(f.chunks) - 1:], g.parts[len(f.chunks) - 1:], eff, 'append')


def item_cases(tier):
    for it in range(1, 256):
        yield {'item': it}


def check_item(c, ctx):
    """Arrays of every item size: one item per chunk, a few, and one chunk."""
    import numpy
    it = c['item']
    ctx.nontrivial()
    kinds = ['V%d' % it, 'S%d' % it]
    if it % 4 == 0:
        kinds.append('U%d' % (it // 4))
    for t in ('u1', 'i2', 'f4', 'f8', 'c16'):
        if numpy.dtype(t).itemsize == it:
            kinds.append(t)
    for kind in kinds:
        raw = gen.rnd_bytes(it, 3 * it) + bytes(8 * it)
        if kind[0] == 'U':
            a = numpy.array([chr(97 + i % 26) * (it // 4) for i in range(11)], dtype=kind)
        else:
            a = numpy.frombuffer(raw, dtype=kind)
        for items in (1, 3, 11, 100):
            for blosc in (None, {'typesize': 5, 'cname': 'lz4', 'clevel': 9}):
                eff = dict(gen.effective_blosc(blosc), typesize=it)
                with must_succeed('packing an array of %s' % kind):
                    p = api.bp.pack_ndarray_to_bytes(a, chunk_size=items * it, blosc_args=gen.make_blosc_args(blosc))
                f = parse(p)
                expect_eq(f.header.typesize, it, 'typesize in the header')
                check_chunks(f.chunks, f.parts, eff, 'array of %s, %d items per chunk' % (kind, items))
                check_overhead(p, f, a.nbytes)


PARTS = [
    Enum('all settings', grid, check_grid,
         'every codec x level x shuffle value, four typesizes each, packed and appended'),
    Enum('sizes', size_cases, check_size,
         'chunk and content sizes and chunk counts at powers of two, of ten and literals of the code with '
         'neighbours, packed and appended; non-trivial: several chunks'),
    Enum('item sizes', item_cases, check_item,
         'arrays of every item size 1..255, with one, three, all items per chunk; all non-trivial'),
    Gen('pack', cases(), check, 1800, 50000,
        'every stored chunk compared with blosc.compress of its slice; non-trivial: several chunks'),
    Gen('arrays', nd_cases(), check_nd, 1000, 30000,
        'the same for arrays, with the item size as typesize; non-trivial: several chunks'),
    Gen('append', append_cases(), check_append, 900, 30000,
        'the same for the rewritten and the new chunks of an append after a history; non-trivial: '
        'something was appended'),
]
