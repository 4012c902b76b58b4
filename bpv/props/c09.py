"""C09: appending is concatenation, over any history of appends."""
import io

from hypothesis import strategies as st

from .. import api, gen, history, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq

ASSUMPTIONS = ['an originally empty file takes its chunk size from the first non-empty append '
               '(at most 1M), as the chunk size of nothing is unspecified']


@st.composite
def cases(draw):
    ops = st.one_of(history.append_op(), history.append_op(), history.append_op(), history.append_op(),
                    history.read_op, history.bad_append_op())
    return {'init': draw(history.init_files()), 'ops': draw(st.lists(ops, min_size=1, max_size=8))}


def check(c, ctx):
    r = history.Runner(c, ctx)
    r.counting = True
    ctx.label('original ' + c['init']['how'], 'empty original' if not r.m.data else None,
              'with metadata' if r.m.metadata is not None else None)
    for k, op in enumerate(c['ops']):
        r.step(k, op)
    ctx.label('%d appends' % r.appended)
    ctx.nontrivial(r.appended > 1)
    if r.appended:
        # two independent readers at the end
        for name in ('unpack_bytes_from_bytes', sorted(api.READERS)[r.appended % len(api.READERS)]):
            r.do_read({'reader': name}, 'the end')


# --------------------------------------------------- small scope, complete

def small_cases(tier):
    top = 4 if tier == 'quick' else 6
    for size in range(0, top + 3):
        for cs in range(1, top + 1):
            for app in range(0, 4):
                yield {'size': size, 'cs': cs, 'app': app, 'max': 6 if tier == 'quick' else 9}


def check_small(c, ctx):
    """All pairs of appends of up to max bytes to a small file."""
    ctx.nontrivial()
    data = bytes(range(1, 1 + c['size']))
    first = api.bp.pack_bytes_to_bytes(
        data, chunk_size=c['cs'], bloscpack_args=api.bp.BloscpackArgs(max_app_chunks=c['app']))
    m0 = history.Model()
    f = ref.parse(first)
    for a in range(c['max'] + 1):
        for b in range(0, c['max'] + 1, 1 if c['app'] else 3):
            raw, m = first, m0
            m.data, m.metadata, m.header = data, None, f.header.dict()
            m.lens, m.cs, m.max_app = [len(p) for p in f.parts], f.header.chunk_size, f.header.max_app
            m.lens_last_known, m.unknown_offsets, m.first_unknown = True, False, 0
            for n in (a, b):
                new = bytes(range(100, 100 + n))
                exp = history.expected(m, n)
                t = io.BytesIO(raw)
                try:
                    added = api.append_mod.append_fp(t, io.BytesIO(new), n)
                    err = None
                except Exception as e:
                    err = e
                what = 'appending %d then %d bytes' % (a, b)
                if exp is None:
                    expect(isinstance(err, history.exc.NotEnoughSpace), '%s: %r', what, err)
                    expect_eq(t.getvalue(), raw, 'file after the refused append')
                    continue
                expect(err is None, '%s: %r', what, err)
                expect_eq(added, len(exp[1]) - len(m.lens), what + ': number of added chunks returned')
                raw = t.getvalue()
                m.data += new
                m.cs, m.lens, m.max_app = exp
                history.verify(raw, m, what)


# --------------------------------------------------- sizes and counts at boundaries

def grid_cases(tier):
    quick = tier == 'quick'
    k = 0
    hows = ('mem', 'names', 'file')
    # sizes of what is appended, chunk sizes of the file
    for n in words.around(1, 2 ** 20 + 2 if quick else 2 ** 25):
        for cs in (n, n - 1, n + 1, 2 * n + 1, max(1, n // 3), max(1000, n // 40), 7 if n < 3000 else 2 ** 20):
            if cs < 1 or cs > 2 ** 21 and quick:
                continue
            k += 1
            yield {'size': 1 + (k % 3) * cs // 2, 'cs': cs, 'app': n // cs + 2, 'add': [n], 'k': k, 'how': hows[k % 3]}
    # sizes of the original, small appends
    for n in words.around(1, 2 ** 18 + 2 if quick else 2 ** 25):
        k += 1
        yield {'size': n, 'cs': max(1, n // 3), 'app': 3, 'add': [1, n // 3], 'k': k, 'how': hows[k % 3]}
    # number of chunks of the original and number of chunks added
    for n in sorted(set(range(1, 34)) | set(words.around(34, 1100 if quick else 70000))):
        for more in (1, n):
            k += 1
            yield {'size': 2 * n - k % 2, 'cs': 2, 'app': more + k % 2, 'add': [2 * more - 1, 1], 'k': k,
                   'how': hows[k % 3]}
    # many small appends in a row
    for step in (1, 2, 3, 5, 7, 8):
        yield {'size': 3, 'cs': 8, 'app': 200, 'add': [step] * (150 if quick else 1000), 'k': step, 'how': 'mem'}


def check_grid(c, ctx):
    k = c['k']
    init = {'how': 'bytes', 'meta': {'v': {'a': 1}} if k % 3 == 0 else None,
            'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)], 'max_app': c['app'], 'cs': c['cs'],
            'data': {'size': c['size'], 'kind': 'rnd', 'seed': 5}, 'blosc': {'clevel': 1, 'typesize': 1 + k % 8},
            'margs': None}
    r = history.Runner({'init': init}, ctx)
    r.counting = True
    for j, n in enumerate(c['add']):
        r.do_append({'size': {'base': 'abs', 'mul': 0, 'delta': n}, 'kind': ('rnd', 'few')[j % 2], 'seed': j,
                     'blosc': {'as': 'BloscArgs', 'v': {'clevel': 1 + k % 9}}, 'how': c['how'],
                     'skip': 0, 'extra': 0}, 'append %d' % j)
    ctx.nontrivial(r.appended == len(c['add']))
    r.do_read({'reader': sorted(api.READERS)[k % len(api.READERS)]}, 'the end')


PARTS = [
    Enum('small scope', small_cases, check_small,
         'every file of up to 6 bytes (thorough: 8), chunk size up to 4 (6), capacity 0..3 and every '
         'pair of appends of up to 6 (9) bytes'),
    Enum('grid', grid_cases, check_grid,
         'appended sizes, chunk sizes, original sizes, chunk counts at powers of two, of ten and literals of '
         'the code with neighbours; 150 (thorough: 1000) small appends in a row; non-trivial: all succeeded'),
    Gen('histories', cases(), check, 2000, 60000,
        'random histories of up to 8 appends (names, file objects, command line; sizes relative to '
        'the space and capacity left), refused appends and reads; non-trivial: more than one append '
        'succeeded'),
]
