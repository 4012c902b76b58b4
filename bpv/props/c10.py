"""C10: a refused append is refused for cause and leaves the file untouched."""
import os

from hypothesis import strategies as st

from .. import api, gen, history, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed

import bloscpack.exceptions as exc

ASSUMPTIONS = ['blosc itself is the judge of which single argument values are invalid']


@st.composite
def boundary_op(draw):
    """Appends around the remaining capacity."""
    o = draw(history.append_op())
    o['size'] = {'base': 'space+cap', 'mul': 1, 'delta': draw(st.sampled_from([-1, 0, 1, 1, 2, 17, 200]))}
    return o


@st.composite
def cases(draw):
    ops = st.one_of(boundary_op(), boundary_op(), history.bad_append_op(), history.append_op(),
                    history.read_op)
    i = draw(history.init_files())
    i['max_app'] = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    if i.get('max_app_spec') is not None:
        i['max_app_spec'] = {'int': i['max_app']}
    return {'init': i, 'ops': draw(st.lists(ops, min_size=1, max_size=7)), 'last': draw(history.append_op())}


def check(c, ctx):
    r = history.Runner(c, ctx)
    for k, op in enumerate(c['ops']):
        r.step(k, op)
    refused = r.refused
    # the file is still usable: it can be read, and filled up to its capacity
    last = dict(c['last'], how='mem', size={'base': 'space+cap', 'mul': 1, 'delta': 0})
    r.step(len(c['ops']), last)
    r.do_read({'reader': 'unpack_bytes_from_bytes'}, 'the end')
    ctx.label('%d refused' % min(refused, 5))
    ctx.nontrivial(refused > 0)


# ------------------------------------------------- files without offsets

@st.composite
def no_offset_cases(draw):
    return {'init': draw(history.init_files()), 'op': draw(history.append_op())}


def check_no_offsets(c, ctx):
    raw, m = history.build(c['init'], offsets=False)
    op = c['op']
    n = history.resolve_size(op['size'], m)
    new = gen.make_data({'size': n, 'kind': op['kind'], 'seed': op['seed']})
    ctx.nontrivial()
    ctx.label(op['how'], 'nothing to append' if n == 0 else None)
    if op['how'] == 'cli':
        after, err = history.cli_append(raw, new, op['blosc'], ctx)
        expect(err.status not in (0, None), 'blpk append to a file without offsets: %r', err)
    else:
        after, err = history.do_append(raw, new, op['how'], history.make_append_blosc(op['blosc']), ctx)
        expect(err is not None, 'append of %d bytes to a file without offsets was accepted', n)
    expect_eq(after, raw, 'file without offsets after the refused append')


# ------------------------------------------------- every argument value, every missing key

def arg_cases(tier):
    import itertools
    keys = ['typesize', 'clevel', 'shuffle', 'cname']
    for r in range(0, 4):
        for keep in itertools.combinations(keys, r):
            for how in ('mem', 'names', 'file'):
                yield {'why': 'missing', 'args': dict((k, gen.BLOSC_DEFAULTS[k]) for k in keep), 'how': how}
    for extra in ('foo', 'offsets', 'checksum', 'clevels', 'nthreads'):
        for how in ('mem', 'names', 'file'):
            yield {'why': 'extra', 'args': dict(gen.BLOSC_DEFAULTS, **{extra: 1}), 'how': how}
    for k, v in history.BAD_VALUES:
        for how in ('mem', 'names', 'file'):
            yield {'why': 'value', 'args': dict(gen.BLOSC_DEFAULTS, **{k: v}), 'how': how}


def check_args(c, ctx):
    ctx.nontrivial()
    for last in (1, 7, 8):
        for n in (0, 1, 8, 30, 200):
            init = {'how': 'bytes', 'meta': {'v': {'a': 1}}, 'checksum': 'adler32', 'max_app': 3, 'cs': 8,
                    'size': 8 + last, 'data': {'size': 8 + last, 'kind': 'rnd', 'seed': 5}, 'blosc': None,
                    'margs': None}
            r = history.Runner({'init': init}, ctx)
            r.do_bad_append({'why': c['why'], 'args': c['args'], 'how': c['how'],
                             'size': {'base': 'abs', 'mul': 0, 'delta': n}}, 'append of %d bytes' % n)


# ------------------------------------------------- capacities at boundaries

def grid_cases(tier):
    caps = sorted(set(range(0, 34)) | set(words.around(34, 1025 if tier == 'quick' else 20000)))
    k = 0
    for n in (1, 2, 3, 10):
        for cap in caps:
            for want in sorted(set((1, cap // 2, cap - 1, cap, cap + 1, cap + 2))):
                if want < 0:
                    continue
                k += 1
                yield {'n': n, 'cs': (1, 2, 5)[k % 3], 'full': k % 2, 'cap': cap, 'want': want,
                       'ck': k % len(gen.CHECKSUMS), 'rest': k % 5}
    # capacities counted in many chunks of the original, used up in two steps
    for n in words.spread(words.around(1, 600), 60):
        for want in (0, 10 * n, 10 * n + 1) if n <= 40 else (1,):
            k += 1
            yield {'n': n, 'cs': 2, 'full': k % 2, 'cap': None, 'want': want, 'ck': k % len(gen.CHECKSUMS),
                   'rest': 0}


def check_grid(c, ctx):
    cs = c['cs']
    init = {'how': 'bytes', 'meta': None, 'checksum': gen.CHECKSUMS[c['ck']], 'max_app': c['cap'],
            'cs': cs, 'data': {'size': cs * c['n'] - (0 if c['full'] else cs - 1), 'kind': 'rnd', 'seed': 5},
            'blosc': {'clevel': 1}, 'margs': None}
    if c['cap'] is None:
        init['max_app_spec'] = {'mul': 10}
    r = history.Runner({'init': init}, ctx)
    cap = r.m.max_app
    ctx.nontrivial()

    def app(chunks, delta=0):
        space = r.m.cs - r.m.lens[-1]
        r.do_append({'size': {'base': 'abs', 'mul': 0, 'delta': max(0, space + cs * chunks - delta)},
                     'kind': 'rnd', 'seed': 2, 'blosc': {'as': 'BloscArgs', 'v': {'clevel': 1}}, 'how': 'mem',
                     'skip': 0, 'extra': 0}, 'append of %d chunks to %d with capacity %d' % (chunks, c['n'], cap))
    app(c['want'], c['rest'] % cs)
    if c['cap'] is not None or c['n'] <= 5:
        # whatever happened, exactly the remaining capacity can still be filled
        app(r.m.max_app + 1)
        app(r.m.max_app)
        app(1)


PARTS = [
    Enum('grid', grid_cases, check_grid,
         'capacities 0..33 and at powers of two, of ten and literals of the code with neighbours x chunk '
         'counts x appends of one, half, all and one more than all remaining chunks, then the rest of the '
         'capacity and one chunk more; all non-trivial'),
    Enum('arguments', arg_cases, check_args,
         'every subset of missing keys, extra keys and invalid values x size of the append x entry point'),
    Gen('boundaries', cases(), check, 1600, 50000,
        'histories with appends around the remaining capacity and with invalid arguments; after each '
        'refusal the file is compared byte for byte, at the end it is filled up exactly; non-trivial: '
        'at least one refusal'),
    Gen('no offsets', no_offset_cases(), check_no_offsets, 500, 10000,
        'appends of any size to files without offsets; all non-trivial'),
]
