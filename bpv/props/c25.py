"""C25: verbosity only adds output, and every line is attributed."""
import contextlib
import io
import os

from hypothesis import strategies as st

from .. import api, calls, gen, history, ref
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused
from . import c01, c16, c17

log = api.bp_log
LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']
ASSUMPTIONS = ['only standard output is compared between levels; warnings and the usage messages of argparse go to '
               'standard error', 'lines are separated by newline characters']

# ------------------------------------------------------------ the messages themselves

texts = st.one_of(st.text('a\n-=~*#_. \r', max_size=12),
                  st.lists(st.tuples(st.sampled_from('-=*#_~.+ \r\t:>a0'), st.integers(1, 90)).map(lambda x: x[0] * x[1]),
                           min_size=1, max_size=4).map('\n'.join),
                  st.text('ab\n: %{}\u00e9\u20ac\t"\'\\', max_size=30),
                  st.sampled_from(['', '\n', 'a\n\nb', '\na', 'a\n', '%s %d', '{0} {x}', 'error: x', 'x' * 3000,
                                   '\n' * 50 + 'y', ' ', ' \n ', '0']))


@st.composite
def message_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(['level', 'level', 'normal', 'verbose', 'debug', 'explicit', 'explicit', 'error', 'prefix',
                                  'bad level', 'bad explicit']))
        o = {'op': k}
        if k in ('level', 'explicit'):
            o['level'] = draw(st.sampled_from(LEVELS))
        if k.startswith('bad'):
            o['level'] = draw(st.sampled_from(['normal', 'INFO', '', None, 0, 1, 2, 'NORMAL ', ['NORMAL'], True]))
        if k in ('normal', 'verbose', 'debug', 'explicit', 'error', 'bad explicit'):
            o['text'] = draw(texts)
        if k == 'explicit':
            o['kw'] = draw(st.booleans())
        if k == 'error':
            o['code'] = draw(st.sampled_from([None, None, 0, 1, 2, 3, 255, 77]))
        if k == 'prefix':
            o['prefix'] = draw(st.sampled_from(['blpk', '', 'a b', 'x%s', '{}', 'bloscpack.py', 'p:', '\u00e9']))
        ops.append(o)
    return {'ops': ops}


def lines_of(prefix, text):
    return ''.join('%s: %s\n' % (prefix, l) for l in text.split('\n') if l)


def check_messages(c, ctx):
    level, prefix = 'NORMAL', 'test'
    log.set_level(level)
    log.set_prefix(prefix)
    printed = silent = 0
    try:
        for i, o in enumerate(c['ops']):
            k = o['op']
            what = 'operation %d: %r at level %s' % (i, o, level)
            out, err = io.StringIO(), io.StringIO()
            want = ''
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                if k == 'error':
                    want = lines_of(prefix + ': error', o['text'])
                    try:
                        if o['code'] is None:
                            log.error(o['text'])
                        else:
                            log.error(o['text'], o['code'])
                    except SystemExit as e:
                        expect_eq(e.code, 1 if o['code'] is None else o['code'], '%s: exit status' % what)
                    else:
                        expect(False, '%s: does not exit', what)
                elif k == 'bad level':
                    with refused(what, ValueError):
                        log.set_level(o['level'])
                elif k == 'bad explicit':
                    with refused(what, TypeError):
                        log.verbose(o['text'], level=o['level'])
                else:
                    with must_succeed(what):
                        if k == 'level':
                            level = o['level']
                            log.set_level(level)
                        elif k == 'prefix':
                            prefix = o['prefix']
                            log.set_prefix(prefix)
                        elif k == 'explicit':
                            of = o['level']
                            if o['kw']:
                                log.verbose(o['text'], level=of)
                            else:
                                log.verbose(o['text'], of)
                        else:
                            of = k.upper()
                            getattr(log, k)(o['text'])
                    if k in ('normal', 'verbose', 'debug', 'explicit'):
                        if LEVELS.index(of) <= LEVELS.index(level):
                            want = lines_of(prefix, o['text'])
                            printed += 1
                        else:
                            silent += 1
            ctx.label(k)
            expect_eq(out.getvalue(), want, '%s: printed' % what)
            expect_eq(err.getvalue(), '', '%s: printed on standard error' % what)
    finally:
        log.set_level('NORMAL')
        log.set_prefix('bloscpack.py')
    ctx.nontrivial(printed > 0 and silent > 0)


# ------------------------------------------------------------ library calls

@st.composite
def library_cases(draw):
    return {'pool': draw(calls.pools()), 'c': draw(calls.call()),
            'prefix': draw(st.sampled_from(['lib', 'bloscpack.py', 'a b']))}


def subsequence(small, large):
    it = iter(large)
    return all(any(x == y for y in it) for x in small)


def check_library(c, ctx):
    outs, results = [], []
    for level in LEVELS:
        def run():
            import blosc
            blosc.set_nthreads(1)
            log.set_prefix(c['prefix'])
            log.set_level(level)
            args = calls.Args(c['pool'])
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                # the same names at every level
                r = calls.make(c['c'], args, calls.Sub(ctx.scratch, 'lib'))
            # what the caller prints afterwards
            more = io.StringIO()
            with contextlib.redirect_stdout(more):
                for k in LEVELS:
                    getattr(log, k.lower())('a message of level ' + k)
            return r, out.getvalue(), more.getvalue()
        r, out, more = calls.forked(run)
        expect_eq(more, ''.join('%s: a message of level %s\n' % (c['prefix'], k) for k in LEVELS[:LEVELS.index(level) + 1]),
                  'messages after %s at level %s' % (c['c']['call'], level))
        results.append(r)
        outs.append(out)
    what = c['c']['call']
    ctx.label(what, 'prints' if outs[1] else None)
    ctx.nontrivial(outs[2])
    expect_eq(outs[0], '', '%s at the normal level: printed' % what)
    attributed(outs, c['prefix'], what)
    for level, r in zip(LEVELS[1:], results[1:]):
        expect(r == results[0], '%s: other result at level %s', what, level)


def attributed(outs, prefix, what):
    for level, out in zip(LEVELS, outs):
        expect(out == '' or out.endswith('\n'), '%s: last line is not terminated at level %s', what, level)
        for l in out.split('\n')[:-1]:
            expect(l.startswith(prefix + ': '), '%s: line without prefix at level %s: %r', what, level, l)
    lines = [o.split('\n') for o in outs]
    for a, b in ((0, 1), (1, 2)):
        expect(subsequence(lines[a], lines[b]), '%s: output at level %s is not part of that at level %s:\n%s\n----\n%s', what,
               LEVELS[a], LEVELS[b], outs[a][:1500], outs[b][:3000])


# ------------------------------------------------------------ what the calls report

@st.composite
def report_cases(draw):
    c = draw(c01.cases(big=False))
    c['new'] = draw(gen.data_of_size(draw(st.integers(0, 5000))))
    return c


def said(run):
    out = io.StringIO()
    before = log.LEVEL
    log.set_level('VERBOSE')
    try:
        with contextlib.redirect_stdout(out):
            r = run()
    finally:
        log.LEVEL = before
    return r, [l.split(': ', 1)[1] for l in out.getvalue().split('\n') if ': ' in l]


def check_reports(c, ctx):
    data = gen.make_data(c['plan']['data'])
    n, chunk, last = ref.partition(len(data), gen.plan_chunk(c['plan']))
    w, r = c['writer'], c['reader']
    ctx.label(w, r)
    with must_succeed(w):
        raw, ls = said(lambda: api.WRITERS[w](ctx, data, **c01.kwargs(c)))
    sizes = {'chunk_size': chunk, 'last_chunk_size': last}
    for k in ('input file size', 'input bytes size'):
        sizes[k] = len(data)
    for k in ('output file size', 'output bytes size'):
        sizes[k] = len(raw)
    c16.check_sizes(ls, sizes, w)
    c16.check_numbers(ls, {'nchunks': n}, w)
    c16.check_ratio(ls, 'compression ratio', len(data), len(raw), w)
    found = len(ls)
    with must_succeed(r):
        _, ls = said(lambda: api.READERS[r](ctx, raw))
    c16.check_sizes(ls, {'input file size': len(raw), 'output file size': len(data)}, r)
    c16.check_ratio(ls, 'decompression ratio', len(data), len(raw), r)
    f = ref.parse(raw)
    if f.meta_header is not None:
        stored = f.meta_header.comp_size
        codec = 'uncompressed' if f.meta_header.codec == 'None' else 'compressed'
        for l in ls:
            if l.startswith('read ') and ' metadata of size: ' in l:
                found += 1
                expect_eq(l, "read %s metadata of size: '%d'" % (codec, stored), r)
    ctx.nontrivial(found)
    # appending
    new = gen.make_data(c['new'])
    p, q = ctx.path('r.blp'), ctx.path('r.new')
    with must_succeed('packing'):
        raw = api.bp.pack_bytes_to_bytes(data, chunk_size=max(1, len(data) // 2), metadata=gen.make_metadata(c['meta']))
    api.write_file(p, raw)
    api.write_file(q, new)
    try:
        _, ls = said(lambda: api.append_mod.append(p, q))
    except history.exc.NotEnoughSpace:
        return
    finally:
        after = api.read_file(p)
        os.unlink(p)
        os.unlink(q)
    c16.check_sizes(ls, {'orig file size before append': len(raw), 'new file size': len(new),
                         'orig file size after append': len(after)}, 'append')
    c16.check_ratio(ls, 'Approximate compression ratio of appended data', len(after) - len(raw), len(new), 'append')


# ------------------------------------------------------------ blpk


@st.composite
def cli_cases(draw):
    return dict(draw(c17.cases()), nthreads=draw(st.sampled_from([None, 1, 1, 2, 3, 8, 9, 16, 64, 200, 256])))


def check_cli(c, ctx):
    seen = []
    for level, flag in zip(LEVELS, (None, '-v', '-d')):
        # the same directory name each time
        ctx.clean()
        cwd = api.workdir(ctx)
        c17.populate(c, cwd)
        steps = []
        for o in c['ops']:
            out = c17.target(o)
            if out is not None and out in (o['in'] if o['kind'][0] != 'a' else o['out'], o.get('meta')):
                continue    # a file that is read while it is written
            args = c17.arguments(dict(o, loud=flag))
            args.remove('-n1')
            if c['nthreads']:
                # the contents have one block only
                args.insert(0, '-n%d' % c['nthreads'])
            r = api.run_cli(args, cwd)
            expect(r.status is not None, 'blpk %s: %r', ' '.join(args), r)
            steps.append((o, args, r, c17.tree(cwd)))
        seen.append(steps)
    for runs in zip(*seen):
        o, args = runs[0][:2]
        what = 'blpk ' + ' '.join(args)
        statuses = [r[2].status for r in runs]
        expect(len(set(statuses)) == 1, '%s: exit status by level: %r', what, statuses)
        for level, r in zip(LEVELS[1:], runs[1:]):
            d = c17.difference(runs[0][3], r[3])
            expect(not d, '%s: other files at level %s: %r', what, level, d)
        outs = [r[2].out for r in runs]
        attributed(outs, 'blpk', what)
        k = o['kind'][0]
        ctx.label(o['kind'] if not statuses[0] else 'failing')
        ctx.nontrivial(statuses[0] == 0)
        if statuses[0] == 0:
            for i in (1, 2):
                if k != 'i' or i == 2:
                    more, less = [len(x.splitlines()) for x in (outs[i], outs[i - 1])]
                    expect(more > less, '%s: %d lines at level %s, %d at %s', what, more, LEVELS[i], less, LEVELS[i - 1])
            for level, r in zip(LEVELS, runs):
                expect_eq(r[2].err, '', '%s at level %s: standard error' % (what, level))
            if k in 'ca':
                expect_eq(outs[0], '', '%s: output without -v or -d' % what)
            elif k == 'd':
                expect(outs[0] == '' or outs[0].startswith('blpk: Metadata:\n'), '%s: output without -v or -d: %r', what,
                       outs[0])


PARTS = [
    Gen('messages', message_cases(), check_messages, 6000, 100000,
        'messages, levels, prefixes and errors against a model; non-trivial: some message printed, another not'),
    Gen('library', library_cases(), check_library, 500, 12000,
        'one library call at each level; non-trivial: it prints something at the debug level'),
    Gen('reports', report_cases(), check_reports, 1500, 40000,
        'sizes, counts and ratios that packing, unpacking and appending report, against the real ones; '
        'non-trivial: something is reported'),
    Gen('blpk', cli_cases(), check_cli, 500, 12000,
        'up to four invocations at each level in equal directories; non-trivial: success'),
]
