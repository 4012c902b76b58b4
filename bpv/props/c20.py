"""C20: calls are independent of history, verbosity and thread count."""
import contextlib
import os
import random
import sys
import threading

import blosc
from hypothesis import strategies as st

from .. import api, calls, gen, ref
from ..core import Gen, Violation, expect

ASSUMPTIONS = ['blosc itself compresses deterministically with one thread; with several threads the order of the '
               'blocks inside a chunk may vary, so then the content of the chunks is compared',
               'each expected result comes from the same call with fresh objects in a fresh process',
               'schedules switch at Python lines of the code under test']

LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']


@st.composite
def histories(draw):
    n = draw(st.integers(2, 6))
    ops = []
    for _ in range(n):
        if ops and draw(st.integers(0, 3)) == 0:
            c = dict(draw(st.sampled_from(ops))['c'])      # the same call again
            how = draw(st.integers(0, 8))
            if how < 3 and c['chunk'] is not None:
                # or one that differs in the type of an equal argument only
                c['as'] = ['float', 'bool', 'numpy'][how]
            if how == 4:
                c['data'] += 1
            if how > 4:
                c[['blosc', 'margs', 'meta', 'bp'][how - 5]] += 1
        else:
            c = draw(calls.call())
        changes = []
        if ops and draw(st.integers(0, 2)) == 0:
            # the caller changes its objects, mostly before it makes the same call again
            c = dict(draw(st.sampled_from([ops[-1]] + ops))['c']) if draw(st.integers(0, 4)) else c
            used = {'pack nd': ['arrays', 'arrays', 'blosc', 'bp', 'margs'], 'pack': ['meta', 'blosc', 'bp', 'margs'],
                    'append': ['blosc'], 'rewrite': ['meta']}
            for _ in range(draw(st.integers(1, 2))):
                what = draw(st.sampled_from(used.get(c['call'], ['blosc', 'bp', 'margs', 'meta', 'arrays'])))
                i = c['array' if what == 'arrays' else what] + (c['call'] == 'rewrite')
                changes.append({'what': what, 'i': i, 'value': draw(st.integers(0, 1000))})
        ops.append({'c': c, 'changes': changes, 'level': draw(st.sampled_from(LEVELS)),
                    'nthreads': draw(st.sampled_from([1, 1, 1, 2, 3, 8, 16]))})
    return {'pool': draw(calls.pools()), 'ops': ops}


def compare(want, got, exact, what):
    if not exact:
        want, got = calls.logical(want), calls.logical(got)
    if want != got:
        raise Violation('%s: %s, but with fresh objects in a fresh process %s' % (what, describe(got), describe(want)))


def describe(r):
    if r is None:
        return 'no result'
    out = []
    for x in r:
        if isinstance(x, bytes):
            try:
                f = ref.parse(x, strict=False)
                x = 'a file with %r' % f.header.dict()
            except ref.RefError:
                x = '%d bytes %s...' % (len(x), x[:40].hex())
        out.append(x if isinstance(x, str) else repr(x))
    return 'result (%s)' % ', '.join(out)[:700]


def baseline(pool, c, ctx, changes=()):
    def fresh():
        blosc.set_nthreads(1)
        args = calls.Args(pool)
        for how in changes:
            args.change(how)
        return calls.make(c, args, calls.Sub(ctx.scratch, 'base'))
    return calls.forked(fresh)


def check_history(case, ctx):
    pool, ops = case['pool'], case['ops']

    def run():
        args = calls.Args(pool)
        state = args.state()
        out = []
        for i, op in enumerate(ops):
            api.bp_log.LEVEL = op['level']
            blosc.set_nthreads(op['nthreads'])
            if op['changes']:
                for how in op['changes']:
                    args.change(how)
                state = args.state()
            r = calls.make(op['c'], args, calls.Sub(ctx.scratch, 'h%d' % i))
            now = args.state()
            diff = calls.changes(state, now)
            if diff:
                raise Violation('call %d (%s) changed its arguments: %s\nbefore: %r\nafter: %r' % (
                    i, op['c']['call'], diff, state[diff[0]], now[diff[0]]))
            out.append(r)
        return out
    got = calls.forked(run)
    failed, changes = False, []
    for i, op in enumerate(ops):
        changes += op['changes']
        want = baseline(pool, op['c'], ctx, changes)
        ctx.label(op['c']['call'] + (' failing' if want[0] == 'error' else ''), op['level'],
                  'after a change of its arguments' if op['changes'] else None, 'threads' if op['nthreads'] > 1 else None)
        ctx.nontrivial(i > 0 and want[0] != 'error')
        if failed:
            ctx.label('after a failure')
        failed = failed or want[0] == 'error'
        compare(want, got[i], op['nthreads'] == 1, 'call %d of %d (%s, level %s, %d blosc threads)' % (
            i, len(ops), op['c']['call'], op['level'], op['nthreads']))


# ------------------------------------------------------------ large chunks and many threads

@st.composite
def large(draw):
    return {'data': draw(gen.data_of_size(draw(st.sampled_from([300000, 700001, 1048576, 2500000])))),
            'chunk': draw(st.sampled_from([None, 262144, 600000, '2M'])), 'blosc': draw(gen.blosc_spec()),
            'bp': draw(gen.bloscpack_spec()), 'nthreads': draw(st.integers(1, 16)), 'unthreads': draw(st.integers(1, 16)),
            'level': draw(st.sampled_from(LEVELS))}


def check_large(c, ctx):
    data = gen.make_data(c['data'])
    kw = {} if c['chunk'] is None else {'chunk_size': c['chunk']}

    def pack(n, level):
        def go():
            blosc.set_nthreads(n)
            api.bp_log.LEVEL = level
            return api.bp.pack_bytes_to_bytes(data, blosc_args=gen.make_blosc_args(c['blosc']),
                                              bloscpack_args=gen.make_bloscpack_args(c['bp']), **kw)
        return calls.forked(go)
    one, many = pack(1, 'NORMAL'), pack(c['nthreads'], c['level'])
    ctx.nontrivial(c['nthreads'] > 1)
    ctx.label('%d threads' % c['nthreads'])
    compare(('packed', one), ('packed', many), c['nthreads'] == 1, 'packing with %d threads' % c['nthreads'])

    def unpack():
        blosc.set_nthreads(c['unthreads'])
        api.bp_log.LEVEL = c['level']
        return api.bp.unpack_bytes_from_bytes(one)[0] == data and api.bp.unpack_bytes_from_bytes(many)[0] == data
    expect(calls.forked(unpack), 'unpacking with %d threads restores other data', c['unthreads'])


# ------------------------------------------------------------ threads

@st.composite
def concurrent(draw):
    return {'pool': draw(calls.pools()), 'calls': draw(st.lists(calls.call(), min_size=2, max_size=4)),
            'seed': draw(gen.seeds), 'density': draw(st.sampled_from([0.02, 0.1, 0.3, 0.7, 1.0]))}


def check_schedule(case, ctx):
    pool, cs = case['pool'], case['calls']

    def run():
        blosc.set_nthreads(1)
        args = calls.Args(pool)
        state = args.state()
        s = calls.Scheduler(len(cs), case['seed'], case['density'])
        out = s.run([lambda c=c, i=i: calls.make(c, args, calls.Sub(ctx.scratch, 't%d' % i))
                     for i, c in enumerate(cs)])
        return out, calls.changes(state, args.state()), s.switches, s.free
    out, diff, switches, free = calls.forked(run)
    expect(not diff, 'concurrent calls changed their arguments: %s', diff)
    ctx.label('schedule given up' if free else None, *[c['call'] for c in cs])
    ctx.nontrivial(switches > 5)
    for i, c in enumerate(cs):
        compare(baseline(pool, c, ctx), out[i], True, 'thread %d of %d (%s)' % (i, len(cs), c['call']))


# ------------------------------------------------------------ one call in the middle of another

NEAR = {'blosc': {'clevel': [0, 1, 9], 'shuffle': [True, False], 'cname': ['lz4', 'zlib'], 'typesize': [1, 4]},
        'bp': {'offsets': [True, False], 'checksum': ['None', 'crc32', 'sha512'], 'max_app': [{'int': 0}, {'int': 30}]},
        'margs': {'meta_checksum': ['None', 'md5'], 'meta_codec': ['zlib', 'None'], 'meta_level': [1, 9, 6],
                  'reserve': [{'add': 3}, {'mul': 12}]}}

PLACES = 200


@st.composite
def nested(draw):
    pool = draw(calls.pools())
    for k in NEAR:
        # the second differs in one field
        field = draw(st.sampled_from(sorted(NEAR[k])))
        first = dict(pool[k][0] or {}, **{field: draw(st.sampled_from(NEAR[k][field]))})
        pool[k] = [first, dict(first, **{field: draw(st.sampled_from(NEAR[k][field]))})]
    pool['meta'] = [{'v': {'a': 'some text ' * draw(st.integers(1, 60))}}, draw(st.sampled_from(pool['meta']))]
    outer = draw(calls.call())
    how = draw(st.sampled_from(['margs', 'margs', 'blosc', 'bp', 'meta', 'data', 'array', 'chunk', 'cs', 'pick', 'other', 'other']))
    inner = dict(outer) if how != 'other' else draw(calls.call())
    if how == 'chunk':
        inner['chunk'] = draw(st.sampled_from([None, 100, 50, '1K']))
    elif how in ('cs', 'pick'):
        inner[how] += draw(st.integers(1, 20))
    elif how != 'other':
        inner[how] += 1
    for c in (outer, inner):
        c['chunk'] = {1: 50}.get(c['chunk'], c['chunk'])
    return {'pool': pool, 'outer': outer, 'inner': inner, 'how': how, 'seed': draw(gen.seeds)}


def check_nested(case, ctx):
    pool = case['pool']

    def run():
        blosc.set_nthreads(1)
        args = calls.Args(pool)
        state = args.state()
        seen = []
        # where could it be interrupted: every line, the first time it is reached and another time
        times = {}
        calls.pausing(lambda: calls.make(case['outer'], args, calls.Sub(ctx.scratch, 'n')), lambda pos: seen.append(pos) or None)
        for i, pos in enumerate(seen):
            times.setdefault(pos, []).append(i)
        rnd = random.Random(case['seed'])
        at = set()
        for ks in times.values():
            at |= {ks[0], rnd.choice(ks)}
        at = sorted(rnd.sample(sorted(at), min(len(at), PLACES, 1 + 300000 // (1 + len(seen)))))
        out = []
        for k in at:
            count, got = [0], []

            def pause(pos):
                count[0] += 1
                if count[0] == k + 1:
                    t = threading.Thread(target=lambda: got.append(calls.make(case['inner'], args, calls.Sub(ctx.scratch, 'in'))))
                    t.start()
                    t.join()
            r = calls.pausing(lambda: calls.make(case['outer'], args, calls.Sub(ctx.scratch, 'n')), pause)
            out.append((seen[k], r, got[0] if got else None))
        return out, calls.changes(state, args.state())
    out, diff = calls.forked(run)
    expect(not diff, 'calls changed their arguments: %s', diff)
    ctx.label(case['outer']['call'], 'differ in ' + case['how'])
    outer, inner = (baseline(pool, case[k], ctx) for k in ('outer', 'inner'))
    ctx.nontrivial(len(out) > 5 and outer[0] != 'error')
    ctx.executed = 1 + len(out)
    for pos, r, i in out:
        what = '%s interrupted at %s line %d' % (case['outer']['call'], os.path.basename(pos[0]), pos[1])
        compare(outer, r, True, what)
        if i is not None:
            compare(inner, i, True, '%s made while a %s' % (case['inner']['call'], what))


def check_free(case, ctx):
    pool, cs = case['pool'], case['calls']

    def run():
        blosc.set_nthreads(1)
        args = calls.Args(pool)
        out = [[] for _ in cs]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        start = threading.Barrier(len(cs))

        def body(i):
            start.wait()
            for _ in range(3):
                out[i].append(calls.make(cs[i], args, calls.Sub(ctx.scratch, 'f%d' % i)))
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(cs))]
        with contextlib.ExitStack() as stack:
            stack.callback(sys.setswitchinterval, old)
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        return out
    out = calls.forked(run)
    ctx.nontrivial(len(set(c['call'] for c in cs)) > 1)
    for i, c in enumerate(cs):
        want = baseline(pool, c, ctx)
        for r in out[i]:
            compare(want, r, True, 'thread %d of %d (%s), free running' % (i, len(cs), c['call']))


PARTS = [
    Gen('histories', histories(), check_history, 1000, 30000,
        'calls sharing argument objects at changing levels and thread counts; non-trivial: a successful call that '
        'was not the first'),
    Gen('threads of blosc', large(), check_large, 60, 1500,
        'chunks of several blocks with 1..16 threads; non-trivial: more than one thread'),
    Gen('schedules', concurrent(), check_schedule, 500, 12000,
        'two to four calls interleaved line by line by a seeded scheduler; non-trivial: more than five switches'),
    Gen('one inside another', nested(), check_nested, 160, 5000,
        'a call interrupted at up to 200 places by another one, mostly differing in one argument, '
        'made by another thread; non-trivial: more than five places in a successful call'),
    Gen('free threads', concurrent(), check_free, 200, 4000,
        'the same with free running threads and a tiny switch interval; non-trivial: different calls'),
]
