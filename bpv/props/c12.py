"""C12: the chunk partition covers the input exactly."""
from fractions import Fraction

from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

ASSUMPTIONS = ['an empty input ignores the chunk size, whatever it is',
               'booleans count as integers, as everywhere in Python']

MAXBUF = gen.MAXBUF
calc = api.calculate_nchunks


def decide(size, chunk, eff, ctx):
    """chunk is what is passed, eff its value in bytes (an int)."""
    if size < 0:
        ctx.label('negative size')
        with refused('size %d' % size, ValueError, TypeError):
            calc(size, chunk)
        return
    if size == 0:
        ctx.label('empty')
        with must_succeed('partition of nothing'):
            expect_eq(tuple(calc(size, chunk)), (1, 0, 0), 'partition of nothing')
        return
    if not 1 <= eff <= MAXBUF:
        ctx.label('chunk size out of range')
        with refused('chunk size %r' % (chunk,), ValueError):
            calc(size, chunk)
        return
    n, cs, last = ref.partition(size, eff)
    if n > ref.INT64_MAX:
        ctx.label('too many chunks')
        with refused('partition into %d chunks' % n, exc.ChunkingException):
            calc(size, chunk)
        return
    ctx.label('one chunk' if n == 1 else 'even' if last == cs else 'with remainder',
              'more than 2**31 chunks' if n > 2 ** 31 else None)
    with must_succeed('partition of %d bytes by %r' % (size, chunk)):
        got = calc(size, chunk)
    gn, gcs, glast = got
    expect(all(type(x) is int for x in got), 'partition of %d by %r has types %r', size, chunk, got)
    expect_eq(gcs * (gn - 1) + glast, size, 'chunk_size*(nchunks-1)+last for %d by %r' % (size, chunk))
    expect(1 <= glast <= gcs, 'last chunk %d, chunk size %d for %d by %r', glast, gcs, size, chunk)
    expect_eq((gn, gcs, glast), (n, cs, last), 'partition of %d by %r' % (size, chunk))


# ------------------------------------------------------------- complete small scope

def small(tier):
    top = 130 if tier == 'quick' else 700
    return [{'size': s, 'top': top} for s in range(-3, top + 1)]


def check_small(c, ctx):
    ctx.nontrivial(c['size'] > 1)
    for cs in range(-2, c['top'] + 4):
        decide(c['size'], cs, cs, ctx)


# ------------------------------------------------------------- any magnitude

@st.composite
def cases(draw):
    cs = draw(st.one_of(
        st.integers(1, 5000), st.integers(1, MAXBUF),
        st.sampled_from([1, 2, 2 ** 10, 2 ** 16, 2 ** 20, 2 ** 30, MAXBUF - 1, MAXBUF, MAXBUF + 1, 0, -1, -2 ** 40,
                         2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64])))
    a = max(1, abs(cs))
    size = draw(st.one_of(
        st.integers(0, 2 ** 70), st.integers(0, 10 ** 6),
        st.builds(lambda n, d: a * n + d, st.integers(0, 2 ** 40), st.sampled_from([-1, 0, 0, 1, 2, -2])),
        st.builds(lambda n, d: a * n + d, st.integers(0, 50), st.sampled_from([-1, 0, 0, 1])),
        st.builds(lambda d: a * ref.INT64_MAX + d, st.sampled_from([-a - 1, -a, -a + 1, -1, 0, 1, a, a + 1])),
        st.sampled_from([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 52 + 1, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64]),
        st.integers(-2 ** 64, -1)))
    return {'size': size, 'chunk': cs}


def check(c, ctx):
    ctx.nontrivial(c['size'] > 1 and 1 <= c['chunk'] < c['size'])
    decide(c['size'], c['chunk'], c['chunk'], ctx)
    if c['chunk'] == 2 ** 20:
        with must_succeed('partition with the default chunk size'):
            try:
                expect_eq(tuple(calc(c['size'])), ref.partition(c['size'], 2 ** 20), 'default partition')
            except (exc.ChunkingException, ValueError):
                pass


# ------------------------------------------------------------- strings

@st.composite
def string_cases(draw):
    unit = draw(st.sampled_from('BKMGT'))
    how = draw(st.integers(0, 3))
    if how == 0:
        num = str(draw(st.integers(0, 4000)))
    elif how == 1:
        num = '%d.%d' % (draw(st.integers(0, 3000)), draw(st.integers(0, 999)))
    elif how == 2:
        num = str(draw(st.integers(0, MAXBUF // ref.UNITS[unit] + 3)))
    else:
        num = draw(st.sampled_from(['0', '0.5', '1e3', '.5', '1.', '0.0001', '1023.999', '1.9999',
                                    '-1', '2047.99', '2047.9999']))
    return {'text': num + unit, 'size': draw(st.one_of(
        st.integers(0, 10 ** 7), st.integers(0, 2 ** 50),
        st.builds(lambda n, d: n * ref.UNITS[unit] + d, st.integers(0, 100), st.integers(-1, 1))))}


def check_string(c, ctx):
    exact = Fraction(c['text'][:-1]) * ref.UNITS[c['text'][-1]]
    eff = int(exact)
    # the float product may round where the exact one is not an integer
    if exact != eff and abs(exact - round(exact)) < Fraction(1, 1000):
        return
    ctx.nontrivial(c['size'] > 0)
    ctx.label('unit ' + c['text'][-1])
    if c['size'] < 0:
        return
    decide(c['size'], c['text'], eff, ctx)


# ------------------------------------------------------------- invalid

bad_chunks = ['', 'K', '1', '1X', 'x1K', '1KB', '1k', '1 m', 'max', '1.5', 'nanK', 'infM', '-5K', '1,5K', 'M1', 'é',
              '0x10K', '1e', '--1K']


def bad_cases(tier):
    for s in (1, 5, 10 ** 6):
        for t in bad_chunks:
            yield {'size': s, 'kind': 'str', 'v': t}
        for t in ('1.5', '2.0', 'None', '[1]', '(1,)', "b'1K'", '{}', 'object()', '1j', 'Fraction(1)'):
            yield {'size': s, 'kind': 'py', 'v': t}


def check_bad(c, ctx):
    ctx.nontrivial()
    v = c['v'] if c['kind'] == 'str' else eval(c['v'])
    with refused('chunk size %r' % (v,), ValueError, TypeError, IndexError, OverflowError):
        calc(c['size'], v)


# ------------------------------------------------------------- boundaries

def grid_cases(tier):
    for cs in [-1, 0] + words.spread(words.around(1, MAXBUF + 2), 160 if tier == 'quick' else 1000) + \
            [MAXBUF - 1, MAXBUF, MAXBUF + 1]:
        yield {'chunk': cs}


def check_grid(c, ctx):
    """One chunk size with every boundary size and multiples of the chunk size."""
    cs = c['chunk']
    sizes = set(words.around(0, 2 ** 64))
    for n in words.around(1, 2 ** 12) + [2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, ref.INT64_MAX - 1, ref.INT64_MAX,
                                         ref.INT64_MAX + 1]:
        sizes.update((n * cs - 1, n * cs, n * cs + 1))
    ctx.nontrivial()
    for size in sorted(sizes):
        decide(size, cs, cs, ctx)


PARTS = [
    Enum('small scope', small, check_small,
         'every size -3..130 (thorough 700) with every chunk size -2..133 (703); non-trivial: size > 1'),
    Enum('grid', grid_cases, check_grid,
         'chunk sizes at powers of two, of ten and literals of the code with neighbours x content sizes and '
         'chunk counts likewise'),
    Enum('invalid', bad_cases, check_bad, 'malformed strings and values of other types'),
    Gen('any size', cases(), check, 8000, 300000,
        'sizes to 2**70 and chunk sizes around all limits; non-trivial: more than one chunk'),
    Gen('strings', string_cases(), check_string, 4000, 100000,
        'chunk sizes as human readable strings; non-trivial: input not empty'),
]
