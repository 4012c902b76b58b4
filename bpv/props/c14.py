"""C14: reserved append capacity follows its documented rule."""
import functools
import io

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused

ASSUMPTIONS = ['values that will be ignored (no offsets, unknown chunk count) need not be validated']

I64 = ref.INT64_MAX


class NullSource(api.abstract_io.PlainSource):
    def __iter__(self):
        return iter(())


class RecordingSink(api.abstract_io.CompressedSink):
    """Records the header; stores nothing, so any chunk count is possible."""

    def write_bloscpack_header(self):
        self.raw = self.bloscpack_header.encode()

    def write_metadata(self, metadata, metadata_args):
        pass

    def init_offsets(self):
        pass

    def put(self, i, compressed):
        pass

    def finalize(self):
        pass


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, n):
        return self.f(n)


def limit_ints(lo, hi):
    return st.one_of(st.integers(lo, hi), st.integers(0, 40),
                     st.sampled_from([x for x in (0, 1, 2, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 62,
                                                  2 ** 63 - 2, 2 ** 63 - 1) if lo <= x <= hi]))


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 1000), limit_ints(1, I64), st.just(-1)))
    how = draw(st.sampled_from(['int', 'int', 'call', 'call', 'default']))
    c = {'n': n, 'offsets': draw(st.integers(0, 4)) != 0, 'how': how,
         'meta': draw(st.booleans())}
    if how == 'int':
        v = draw(st.one_of(limit_ints(0, I64), st.integers(-3, 3).map(lambda d: max(0, min(I64, I64 - n + d)))))
        c['v'] = v
    elif how == 'call':
        c['form'] = draw(st.sampled_from(['function', 'object', 'partial']))
        c['rule'] = draw(st.sampled_from(['const', 'mul', 'add', 'rest']))
        c['v'] = draw(st.one_of(st.integers(0, 20), limit_ints(0, I64), st.integers(0, 2 ** 80)))
    return c


def rule(c):
    v = c.get('v')
    return {'const': lambda n: v, 'mul': lambda n: v * n, 'add': lambda n: n + v,
            'rest': lambda n: max(0, I64 - n + v % 5 - 2)}[c['rule']]


def configured(n, offsets, kw, meta=False):
    """The header that pack() derives."""
    sink = RecordingSink()
    api.abstract_io.pack(NullSource(), sink, n, 1, 1, metadata={} if meta else None,
                         bloscpack_args=api.bp.BloscpackArgs(offsets=offsets, **kw))
    return sink


def check(c, ctx):
    n, seen = c['n'], []
    kw = {}
    if c['how'] == 'int':
        kw['max_app_chunks'] = want = c['v']
    elif c['how'] == 'call':
        f = rule(c)

        def g(k):
            seen.append(k)
            return f(k)
        want = f(n)
        kw['max_app_chunks'] = {'function': g, 'object': Callable(g),
                                'partial': functools.partial(lambda x, k: g(k), None)}[c['form']]
    else:
        want = 10 * n
    if not c['offsets'] or n == -1:
        want = 0
    clipped = n >= 0 and n + want > I64
    if clipped:
        want = I64 - n
    ctx.label(c['how'], 'reduced' if clipped else None, 'no offsets' if not c['offsets'] else None,
              'nchunks unknown' if n == -1 else None)
    ctx.nontrivial(want > 0)
    with must_succeed('packing with max_app_chunks %r' % (c,)):
        sink = configured(n, c['offsets'], kw, c['meta'])
    expect_eq(sink.bloscpack_header.max_app_chunks, want, 'capacity for nchunks %d' % n)
    expect_eq(ref.Header(sink.raw).max_app, want, 'capacity in the encoded header')
    expect_eq(ref.Header(sink.raw).nchunks, n, 'nchunks in the encoded header')
    expect(all(k == n for k in seen), 'the function was called with %r instead of %d', seen, n)
    if c['offsets'] and n != -1 and c['how'] == 'call':
        expect(seen, 'the function was not called')
    for other in (1, np.bool_(True)) if c['offsets'] else (0, np.bool_(False)):
        with must_succeed('packing with offsets=%r' % (other,)):
            sink = configured(n, other, kw, c['meta'])
        expect_eq(ref.Header(sink.raw).max_app, want, 'capacity for nchunks %d with offsets=%r' % (n, other))


# ------------------------------------------------- real files

@st.composite
def file_cases(draw):
    return {'plan': draw(gen.plan(big=False, max_chunks=20)), 'bp': draw(gen.bloscpack_spec()),
            'writer': draw(st.sampled_from(sorted(api.WRITERS)))}


def check_file(c, ctx):
    data = gen.make_data(c['plan']['data'])
    eff = gen.effective_bloscpack(c['bp'])
    with must_succeed('packing'):
        packed = api.WRITERS[c['writer']](ctx, data, bloscpack_args=gen.make_bloscpack_args(c['bp']),
                                          **gen.chunk_kw(c['plan']))
    try:
        f = ref.parse(packed)
    except ref.RefError as e:
        raise Violation('file does not conform: %s' % e)
    want = gen.eval_max_app(eff['max_app'], f.header.nchunks, eff['offsets'])
    ctx.nontrivial(want > 0)
    expect_eq(f.header.max_app, want, 'capacity of a file of %d chunks' % f.header.nchunks)
    if eff['offsets']:
        expect_eq(len(f.free_offsets), want, 'number of reserved offsets')


# ------------------------------------------------- refused values

def bad_cases(tier):
    for n in (1, 2, 1000, I64 - 1, I64):
        for v in ('-1', '-2', '-2**63', '2**63', '2**64', '1.0', '0.5', '"5"', 'None', '[1]', '{}', 'b"1"', '1j',
                  'object()', 'float("nan")', '(1,)', 'set()'):
            yield {'n': n, 'v': v, 'call': False}
            if v not in ('2**63', '2**64'):
                yield {'n': n, 'v': v, 'call': True}


def check_bad(c, ctx):
    v = eval(c['v'])
    ctx.nontrivial()
    arg = (lambda n: v) if c['call'] else v
    with refused('max_app_chunks %s%s' % ('function returning ' if c['call'] else '', c['v']),
                 ValueError, TypeError):
        configured(c['n'], True, {'max_app_chunks': arg})
    # and before anything is written
    out = io.BytesIO()
    with refused('max_app_chunks %s' % c['v'], ValueError, TypeError):
        api.abstract_io.pack(api.file_io.PlainFPSource(io.BytesIO(b'abc')), api.file_io.CompressedFPSink(out),
                             1, 3, 3, bloscpack_args=api.bp.BloscpackArgs(max_app_chunks=arg))
    expect_eq(out.getvalue(), b'', 'output of the refused call')


# ------------------------------------------------- boundaries

def grid_cases(tier):
    for n in [-1] + words.spread(words.around(1, I64), 120 if tier == 'quick' else 1000) + [I64 - 1, I64]:
        yield {'n': n}


def check_grid(c, ctx):
    """One chunk count with every boundary capacity, as integer and as function."""
    n = c['n']
    marks = [I64 - 1, I64]
    if n > 0:
        marks += [I64 - n - 1, I64 - n, I64 - n + 1, 10 * n, 10 * n + 1]
    for v in sorted(set(words.around(0, I64)) | set(x for x in marks if x >= 0)):
        for call in (False, True):
            if v > I64 and not call:
                continue
            want = min(v, I64 - n) if n >= 0 else 0
            with must_succeed('packing with capacity %d for %d chunks' % (v, n)):
                sink = configured(n, True, {'max_app_chunks': (lambda k: v) if call else v})
            expect_eq(sink.bloscpack_header.max_app_chunks, want, 'capacity %d for nchunks %d' % (v, n))
            expect_eq(ref.Header(sink.raw).max_app, want, 'capacity in the encoded header')
    with must_succeed('packing with the default capacity'):
        sink = configured(n, True, {})
    expect_eq(sink.bloscpack_header.max_app_chunks, 0 if n < 0 else min(10 * n, I64 - n),
              'default capacity for nchunks %d' % n)
    ctx.nontrivial(n > 0)


PARTS = [
    Enum('refused values', bad_cases, check_bad,
         'negative, oversized and non-integer values, given and returned by functions, x chunk counts'),
    Enum('grid', grid_cases, check_grid,
         'chunk counts x capacities (integers and functions), both at powers of two, of ten and literals of '
         'the code with neighbours; non-trivial: known chunk count'),
    Gen('rule', cases(), check, 6000, 200000,
        'chunk counts and capacities over the whole int64 range through pack() with a recording sink; '
        'non-trivial: a positive capacity'),
    Gen('files', file_cases(), check_file, 1500, 40000,
        'real files parsed by the reference; non-trivial: a positive capacity'),
]
