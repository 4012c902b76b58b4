"""C03: numpy arrays round-trip with dtype, shape, order and bits intact."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, ndgen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

ASSUMPTIONS = ['padding bytes between fields are not elements and not compared',
               'numpy itself is trusted (tobytes, transpose, broadcasting)',
               'dtypes with overlapping or out-of-order fields have no descr and are out of scope']


@st.composite
def cases(draw):
    a = draw(ndgen.array_spec(big=True, classes=True))
    it = ndgen.make_dtype(a['dtype']).itemsize
    k = draw(st.integers(0, 5))
    n = 1
    for d in a['shape']:
        n *= d
    if k == 0:
        chunk = None
    elif n > 3000:
        chunk = it * draw(st.integers(n // 5, n + 1))
    else:
        chunk = it * draw(st.integers(1, max(1, n + 1) if k < 4 else 8))
    return {'a': a, 'chunk': chunk, 'blosc': draw(gen.blosc_spec()), 'bp': draw(gen.bloscpack_spec()),
            'margs': draw(gen.metadata_args_spec()),
            'writer': draw(st.sampled_from(sorted(api.ND_WRITERS) + ['memory'])),
            'reader': draw(st.sampled_from(sorted(api.ND_READERS)))}


def kwargs(c):
    kw = {}
    if c['chunk'] is not None:
        kw['chunk_size'] = c['chunk']
    if c['blosc'] is not None:
        kw['blosc_args'] = gen.make_blosc_args(c['blosc'])
    if c['bp'] is not None:
        kw['bloscpack_args'] = gen.make_bloscpack_args(c['bp'])
    if c['margs'] is not None:
        kw['metadata_args'] = gen.make_metadata_args(c['margs'])
    return kw


def compare(b, a, what):
    expect(isinstance(b, np.ndarray), '%s: a %s', what, type(b).__name__)
    expect(b.dtype == a.dtype, '%s: dtype %r instead of %r', what, b.dtype, a.dtype)
    expect(b.dtype.str == a.dtype.str and b.dtype.itemsize == a.dtype.itemsize,
           '%s: dtype %r instead of %r', what, b.dtype.str, a.dtype.str)
    expect(b.dtype.fields == a.dtype.fields, '%s: fields %r instead of %r', what,
           b.dtype.fields, a.dtype.fields)
    expect_eq(b.shape, a.shape, '%s: shape' % what)
    if np.isfortran(a):
        expect(b.flags['F_CONTIGUOUS'], '%s: Fortran order lost', what)
    elif a.ndim > 1:
        expect(b.flags['C_CONTIGUOUS'], '%s: C order lost', what)
    expect(ndgen.bits(b) == ndgen.bits(a), '%s: element bits differ', what)


def check(c, ctx):
    a = ndgen.make_array(c['a'])
    dt = a.dtype
    chunk = c['chunk'] or 2 ** 20
    eff = min(chunk, a.nbytes) if a.nbytes else 0
    before = (ndgen.bits(a), a.dtype, a.shape, a.strides, a.flags['WRITEABLE'])
    layout = c['a']['layout']
    ctx.label('layout=' + (layout if isinstance(layout, str) else 'mixed'), 'struct' if dt.names else dt.kind,
              'padded' if ndgen.has_padding(dt) else None,
              'ndim=%d' % a.ndim, 'empty' if a.size == 0 else None,
              'noncontiguous' if not (a.flags['C_CONTIGUOUS'] or a.flags['F_CONTIGUOUS']) else None,
              'isfortran' if np.isfortran(a) else None, c['writer'],
              'multi chunk' if a.nbytes > chunk else None)
    ctx.nontrivial(a.size > 1 and (a.nbytes > chunk or layout != 'C' or dt.names is not None))
    if eff and eff % dt.itemsize:
        with refused('chunk size %d for items of %d bytes' % (chunk, dt.itemsize),
                     exc.ChunkSizeTypeSizeMismatch):
            api.ND_WRITERS['pack_ndarray_to_bytes'](ctx, a, **kwargs(c))
        return
    with must_succeed('packing an array with %s' % c['writer']):
        if c['writer'] == 'memory':
            sink = api.memory_io.CompressedMemorySink()
            api.numpy_io.pack_ndarray(a, sink, **kwargs(c))
        else:
            packed = api.ND_WRITERS[c['writer']](ctx, a, **kwargs(c))
    after = (ndgen.bits(a), a.dtype, a.shape, a.strides, a.flags['WRITEABLE'])
    expect(before == after, 'packing modified the input array')
    with must_succeed('unpacking an array'):
        if c['writer'] == 'memory':
            b = api.numpy_io.unpack_ndarray(api.memory_io.CompressedMemorySource(sink))
        else:
            b = api.ND_READERS[c['reader']](ctx, packed)
    compare(b, a, '%s/%s' % (c['writer'], c['reader']))


# ---------------------------------------------------------------- refusals

@st.composite
def refusal_cases(draw):
    how = draw(st.sampled_from(['object', 'split', 'notarray', 'notarray']))
    c = {'how': how, 'writer': draw(st.sampled_from(sorted(api.ND_WRITERS))),
         'reader': draw(st.sampled_from(sorted(api.ND_READERS)))}
    if how == 'object':
        c['variant'] = draw(st.integers(0, 4))
        c['shape'] = draw(st.lists(st.integers(0, 4), max_size=2))
    elif how == 'split':
        a = draw(ndgen.array_spec(max_items=60))
        it = ndgen.make_dtype(a['dtype']).itemsize
        if it == 1:
            a['dtype'] = {'s': '<f8'}
            it = 8
        n = 1
        for d in a['shape']:
            n *= d
        if n < 2:
            a['shape'], a['layout'] = [n + 2], 'C'
            n = n + 2
        q = draw(st.integers(0, n - 2))
        r = draw(st.integers(1, it - 1))
        c['a'], c['chunk'] = a, q * it + r
    else:
        c['meta'] = draw(st.one_of(
            st.just(None), gen.metadata_spec(allow_none=False),
            st.sampled_from([{'v': {'container': 'Numpy', 'dtype': "'<f8'", 'shape': [1], 'order': 'C'}},
                             {'v': {'container': None}}, {'v': {'dtype': "'<f8'", 'shape': [1], 'order': 'C'}},
                             {'v': ['container', 'numpy']}, {'v': 'numpy'}, {'v': 'container'},
                             {'v': {'container': ['numpy']}}, {'v': {'container': 'numpy '}},
                             {'v': 3}, {'v': True}])))
        c['data'] = draw(gen.data_of_size(draw(st.integers(0, 100))))
    return c


def check_refusal(c, ctx):
    ctx.label(c['how'])
    ctx.nontrivial()
    if c['how'] == 'object':
        shape = tuple(c['shape'])
        v = c['variant']
        dt = [np.dtype('O'), np.dtype([('a', 'i4'), ('b', 'O')]), np.dtype([('a', [('b', 'O')])]),
              np.dtype([('a', 'O', (2,))]), np.dtype([('o', 'O'), ('i', 'i8')])][v]
        a = np.zeros(shape, dt)
        with refused('packing an array with objects (%r)' % (dt,), exc.ObjectNumpyArrayRejection):
            api.ND_WRITERS[c['writer']](ctx, a)
        with refused('packing an array with objects (%r)' % (dt,), exc.ObjectNumpyArrayRejection):
            api.numpy_io.pack_ndarray(a, api.memory_io.CompressedMemorySink())
    elif c['how'] == 'split':
        a = ndgen.make_array(c['a'])
        with refused('chunk size %d for %d items of %d bytes' % (c['chunk'], a.size, a.itemsize),
                     exc.ChunkSizeTypeSizeMismatch):
            api.ND_WRITERS[c['writer']](ctx, a, chunk_size=c['chunk'])
    else:
        meta = gen.make_metadata(c['meta'])
        with must_succeed('packing bytes'):
            packed = api.bp.pack_bytes_to_bytes(gen.make_data(c['data']), metadata=meta)
        with refused('unpacking an array from bytes with metadata %r' % (meta,), exc.NotANumpyArray):
            api.ND_READERS[c['reader']](ctx, packed)


# ------------------------------------------------- complete grids

SHAPES = [[], [0], [1], [5], [3, 4], [1, 4], [4, 1], [0, 3], [3, 0], [2, 3, 4], [1, 1, 1], [2, 1, 3, 2]]
STRUCTS = [
    {'fields': [{'n': 'a', 'd': {'s': '<i4'}}, {'n': 'b', 'd': {'s': '>f8'}}]},
    {'fields': [{'n': 'a', 'd': {'s': 'u1'}}, {'n': 'b', 'd': {'s': '<f8'}}], 'align': True},
    {'fields': [{'n': 'a', 'd': {'s': 'u1'}}, {'n': 'b', 'd': {'s': '<i2'}}], 'gaps': [1, 2], 'tail': 3},
    {'fields': [{'n': 'a', 'd': {'s': '<i2'}, 'shape': [2, 3]}, {'n': 'b', 'd': {'s': 'S5'}}]},
    {'fields': [{'n': 'o', 'd': {'fields': [{'n': 'i', 'd': {'s': '>u2'}}, {'n': 'j', 'd': {'s': '?'}}]}},
                {'n': 'p', 'd': {'s': '<M8[s]'}}]},
    {'fields': [{'n': 'a', 'd': {'s': '<c8'}, 'title': 'T'}]},
    {'fields': [{'n': 'a', 'd': {'s': '<U3'}, 'shape': [2]}, {'n': '\u00e9', 'd': {'s': 'V3'}}]},
]


def grid_cases(tier):
    k = 0
    writers = sorted(api.ND_WRITERS) + ['memory']
    readers = sorted(api.ND_READERS)
    for d in [{'s': b} for b in ndgen.BASE] + STRUCTS:
        it = ndgen.make_dtype(d).itemsize
        for layout in sorted(set(ndgen.LAYOUTS) - {'mixed'}):
            for shape in SHAPES:
                k += 1
                yield {'a': {'dtype': d, 'shape': shape, 'layout': layout, 'kind': 'rnd', 'seed': k},
                       'chunk': [None, it, 3 * it, 1000 * it][k % 4], 'blosc': None, 'bp': None,
                       'margs': None, 'writer': writers[k % len(writers)],
                       'reader': readers[k % len(readers)]}


def view_cases(tier):
    """Every order of up to four axes in memory with every combination of steps."""
    k = 0
    writers = sorted(api.ND_WRITERS) + ['memory']
    readers = sorted(api.ND_READERS)
    for ndim in (1, 2, 3, 4):
        lengths = [1, 2, 3] if ndim < 3 or tier != 'quick' else [2, 3] if ndim == 3 else [2]
        steps = [1, 2, -1, 0, -3] if ndim < 3 or tier != 'quick' else [1, 2, -1, 0] if ndim == 3 else [1, -1, 0]
        for shape in itertools.product(lengths, repeat=ndim):
            for perm in itertools.permutations(range(ndim)):
                for t in itertools.product(steps, repeat=ndim):
                    k += 1
                    it = [1, 2, 8, 3][k % 4]
                    yield {'a': {'dtype': {'s': ['u1', '>i2', '<f8', 'S3'][k % 4]}, 'shape': list(shape),
                                 'layout': {'perm': list(perm), 'steps': list(t)}, 'kind': 'rnd', 'seed': k},
                           'chunk': [None, it, 4 * it][k % 3], 'blosc': None, 'bp': None, 'margs': None,
                           'writer': writers[k % len(writers)], 'reader': readers[k % len(readers)]}


def size_cases(tier):
    k = 0
    writers = sorted(api.ND_WRITERS) + ['memory']
    readers = sorted(api.ND_READERS)
    for it in range(1, 256):
        for kind in ('S', 'V'):
            for n, m in ((1, 1), (2, 1), (7, 3), (300, 64)):
                k += 1
                yield {'a': {'dtype': {'s': '%s%d' % (kind, it)}, 'shape': [n], 'layout': 'C', 'kind': 'rnd',
                             'seed': k}, 'chunk': m * it, 'blosc': None, 'bp': None, 'margs': None,
                       'writer': writers[k % len(writers)], 'reader': readers[k % len(readers)]}
    top = 2 ** 22 if tier == 'quick' else 2 ** 26
    for n in words.around(1, top):
        for dt, it in (('u1', 1), ('<f8', 8), ('S7', 7)):
            if n * it > top:
                continue
            for shape, layout, c in (([n], 'C', n), ([n], 'neg', max(1, n // 3)),
                                     ([max(1, n // 4), 4], 'F', max(1, n // 2)),
                                     ([2, n], 'transposed', n)):
                if n // c > 20:
                    continue
                k += 1
                yield {'a': {'dtype': {'s': dt}, 'shape': shape, 'layout': layout,
                             'kind': ('rnd', 'arith8', 'zero')[k % 3], 'seed': k}, 'chunk': c * it,
                       'blosc': {'clevel': 1}, 'bp': None, 'margs': None,
                       'writer': writers[k % len(writers)], 'reader': readers[k % len(readers)]}
    for n in words.spread(words.around(1, 3000), 60):
        k += 1
        yield {'a': {'dtype': {'s': '<i2'}, 'shape': [n], 'layout': 'C', 'kind': 'rnd', 'seed': k}, 'chunk': 2,
               'blosc': None, 'bp': None, 'margs': None,
               'writer': writers[k % len(writers)], 'reader': readers[k % len(readers)]}


PARTS = [
    Enum('grid', grid_cases, check,
         'every dtype of a list x memory layout x shape, chunk sizes and entry points in turn'),
    Enum('views', view_cases, check,
         'every order of the axes in memory x steps along them (also backwards and repeated) x small shapes'),
    Enum('sizes', size_cases, check,
         'every item size 1..255, and item and chunk counts at powers of two, of ten and literals of the code, '
         'each with its neighbours'),
    Gen('roundtrip', cases(), check, 4000, 120000,
        'random dtype (nested, padded, both byte orders) x shape x memory layout x arguments x '
        'entry points; non-trivial: several items and (several chunks or special layout or structured)'),
    Gen('refusal', refusal_cases(), check_refusal, 800, 8000,
        'object arrays, splitting chunk sizes, contents that are no array; all non-trivial'),
]
