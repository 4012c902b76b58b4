"""C23: human-readable sizes mean what they say."""
from decimal import Decimal, InvalidOperation
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused

from bloscpack import pretty

ASSUMPTIONS = ['sizes are read as binary floating point numbers: the number in a size string means '
               'the nearest double, and products are rounded to the nearest double']

UNITS = [('B', 1), ('K', 2 ** 10), ('M', 2 ** 20), ('G', 2 ** 30), ('T', 2 ** 40)]


# --------------------------------------------------------------- parsing

@st.composite
def parse_cases(draw):
    unit = draw(st.sampled_from('BKMGT'))
    how = draw(st.integers(0, 5))
    if how == 0:
        num = str(draw(st.integers(-2000, 5000)))
    elif how == 1:
        num = str(draw(st.integers(-2 ** 80, 2 ** 80)))
    elif how == 2:
        num = '%d.%s' % (draw(st.integers(0, 2000)), draw(st.text('0123456789', max_size=6)))
    elif how == 3:
        num = repr(draw(st.floats(0, 1e15)))
    elif how == 4:
        num = repr(draw(st.floats(-1e3, 1e3)))
    else:
        num = draw(st.sampled_from(['.5', '1.', '1e3', '1E-2', '0', '-0', '-0.0', '+1', '1e15', '0.1', '0.9999999',
                                    '1023.9999999999', '00012', '1.5', '0.0009765625']))
    return {'num': num, 'unit': unit}


def check_parse(c, ctx):
    x = Fraction(float(c['num']))   # correctly rounded by definition
    mul = ref.UNITS[c['unit']]
    want = int(x * mul)             # multiplying a double by a power of two is exact
    ctx.label(c['unit'], 'fraction' if x.denominator != 1 else 'whole', 'negative' if x < 0 else None)
    ctx.nontrivial(x.denominator != 1)
    with must_succeed('parsing %r' % (c['num'] + c['unit'])):
        got = pretty.reverse_pretty(c['num'] + c['unit'])
    expect(type(got) is int, 'parsing gave %r', got)
    expect_eq(got, want, 'value of %r' % (c['num'] + c['unit']))
    # and independently of how doubles work: within rounding of the exact value
    exact = Fraction(Decimal(c['num'])) * mul
    expect(abs(got - exact) <= 1 + abs(exact) / 2 ** 50, '%s is %d', c['num'] + c['unit'], got)


@st.composite
def bad_suffix(draw):
    ch = draw(st.one_of(st.sampled_from('kmgtbPEZYiXx 0123456789.+-_'), st.characters(blacklist_categories=['Cs'])))
    return {'num': draw(st.sampled_from(['1', '1.5', '0', '100', '', '1K', '5 '])), 'suffix': ch}


def check_bad(c, ctx):
    if c['suffix'] in 'BKMGT':
        return
    ctx.nontrivial()
    with refused('size %r' % (c['num'] + c['suffix']), ValueError):
        pretty.reverse_pretty(c['num'] + c['suffix'])


# --------------------------------------------------------------- printing

@st.composite
def sizes(draw):
    how = draw(st.integers(0, 4))
    if how == 0:
        n = draw(st.integers(0, 3000))
    elif how == 1:
        n = draw(st.integers(0, 2 ** 60))
    elif how == 2:
        n = draw(st.sampled_from([1, 2 ** 10, 2 ** 20, 2 ** 30, 2 ** 40, 2 ** 50])) * \
            draw(st.integers(1, 1024)) + draw(st.integers(-3, 3))
    elif how == 3:
        # close to a rounding boundary of two decimals
        n = int(draw(st.sampled_from([2 ** 10, 2 ** 20, 2 ** 30, 2 ** 40])) *
                (draw(st.integers(0, 102400)) + Fraction(1, 2)) / 100) + draw(st.integers(-1, 1))
    else:
        n = 2 ** draw(st.integers(0, 62)) + draw(st.integers(-2, 2))
    return {'n': max(0, n)}


def check_print(c, ctx):
    n = c['n']
    with must_succeed('printing %d' % n):
        text = pretty.pretty_size(n)
        both = pretty.double_pretty_size(n)
    unit, mul = 'B', 1
    for u, m in UNITS:
        if m <= n:
            unit, mul = u, m
    ctx.label(unit)
    ctx.nontrivial(n % mul != 0)
    expect(isinstance(text, str) and text[-1:] == unit, '%d printed as %r, expected unit %s', n, text, unit)
    try:
        shown = Fraction(Decimal(text[:-1]))
    except InvalidOperation:
        expect(False, '%d printed as %r', n, text)
    expect((shown * 100).denominator == 1 or shown > 2 ** 52, '%d printed as %r: more than two decimals', n, text)
    slack = Fraction(1, 200) + Fraction(n, mul) / 2 ** 50
    expect(abs(shown - Fraction(n, mul)) <= slack, '%d printed as %r: not rounded to two decimals', n, text)
    with must_succeed('parsing back %r' % text):
        back = pretty.reverse_pretty(text)
    expect(abs(back - n) <= slack * mul + 1, '%d printed as %r, parsed back as %d', n, text, back)
    expect_eq(both, '%s (%dB)' % (text, n), 'double_pretty_size(%d)' % n)


def small(tier):
    top = 4096 if tier == 'quick' else 40000
    step = 256
    return [{'from': a, 'to': a + step} for a in range(0, top, step)] + \
        [{'from': m * k - 40, 'to': m * k + 40} for m in (2 ** 10, 2 ** 20, 2 ** 30, 2 ** 40, 2 ** 50)
         for k in (1, 2, 10, 1000, 1023, 1024)]


def check_small(c, ctx):
    for n in range(max(0, c['from']), c['to']):
        check_print({'n': n}, ctx)
    ctx.nontrivial()


# --------------------------------------------------------------- boundaries

def grid_cases(tier):
    for u in 'BKMGT':
        yield {'unit': u}


def check_grid(c, ctx):
    """Every boundary number, whole and with fractions, parsed; products of it printed."""
    u, mul = c['unit'], ref.UNITS[c['unit']]
    for n in words.around(0, 2 ** 53):
        for frac in ('', '.', '.0', '.5', '.25', '.001', '.999', '.3333333'):
            check_parse({'num': '%d%s' % (n, frac), 'unit': u}, ctx)
        if n * mul < 2 ** 60:
            for size in (n * mul - 1, n * mul, n * mul + 1, n * mul + mul // 3):
                if size >= 0:
                    check_print({'n': size}, ctx)
    for hundredth in range(0, 102400, 7):
        check_print({'n': hundredth * mul // 100}, ctx)
    ctx.nontrivial()



PARTS = [
    Enum('small scope', small, check_small, 'every size up to 4096 (thorough 40000) and around all unit limits'),
    Enum('grid', grid_cases, check_grid,
         'numbers at powers of two, of ten and literals of the code with neighbours and fractions x units, parsed and '
         'printed; every seventh hundredth of each unit printed'),
    Gen('parse', parse_cases(), check_parse, 6000, 200000,
        'numbers in all notations x units; non-trivial: not a whole number'),
    Gen('suffix', bad_suffix(), check_bad, 1500, 30000, 'any other suffix; all non-trivial'),
    Gen('print', sizes(), check_print, 6000, 200000,
        'sizes to 2**62 printed and parsed back; non-trivial: not a multiple of the unit'),
]
