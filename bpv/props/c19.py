"""C19: an interrupted compression never looks finished."""
import io
import os
import random
import signal

import blosc
from hypothesis import strategies as st

from .. import api, faults, gen, guard, ndgen, ref, words
from ..core import Enum, Gen, HarnessError, expect, must_succeed, refused

LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['faults are injected at the calls of the file objects, at the blosc calls and at Python lines; an '
               'operation that does not go through them is not failed and not judged',
               'after the fault the remaining operations work again, or every later write fails, too',
               'a killed process loses what its file buffers hold; the operating system loses nothing']

# ------------------------------------------------------------ packing


@st.composite
def pack_cases(draw, max_chunks=6):
    entry = draw(st.sampled_from(['core', 'core', 'file', 'file', 'bytes', 'nd core', 'nd file']))
    c = {'entry': entry, 'seed': draw(gen.seeds),
         'bp': {'offsets': draw(st.integers(0, 4)) != 0, 'checksum': draw(st.sampled_from(gen.CHECKSUMS)),
                'max_app': draw(gen.max_app_spec(limit=20)) or {'int': 2}}}
    cs = draw(st.one_of(st.integers(1, 300), st.integers(300, 20000)))
    n = draw(st.integers(1, max_chunks))
    size = cs * (n - 1) + draw(st.integers(1, cs))
    if draw(st.integers(0, 14)) == 7:
        size = 0
    if entry.startswith('nd'):
        c['size'], c['items'] = size // 4 + 1, max(1, cs // 4)
    else:
        c['data'], c['cs'] = draw(gen.data_of_size(size, period=cs)), cs
        c['meta'] = draw(st.one_of(st.none(), st.sampled_from([{'v': {}}, {'v': {'a': [1, 2]}}, {'v': [0] * 40}])))
    c['blosc'] = draw(gen.blosc_spec())
    c['kind'] = draw(st.sampled_from(sorted(faults.KINDS)))
    c['part'] = draw(st.sampled_from([0.0, 0.0, 0.3, 0.6, 0.97]))
    c['persist'] = draw(st.booleans())
    return c


def run_pack(c, ctx, fault, around=None):
    """One packing; returns (exception or None, what was written)."""
    kw = {'blosc_args': gen.make_blosc_args(c['blosc']), 'bloscpack_args': gen.make_bloscpack_args(c['bp'])}
    src, out = ctx.path('in'), ctx.path('out.blp')
    entry = c['entry']
    if os.path.exists(out):
        os.unlink(out)
    if entry.startswith('nd'):
        import numpy
        data = numpy.frombuffer(gen.rnd_bytes(c['seed'], 4 * c['size']), '<u4') % 1000
        kw['chunk_size'] = 4 * c['items']
    else:
        data = gen.make_data(c['data'])
        kw['metadata'] = gen.make_metadata(c['meta'])
    mem = io.BytesIO()
    faulty = lambda fp, n: faults.FaultyFP(fp, n, fault)   # noqa: E731
    try:
        with faults.faulty_open(fault, {src: 'in', out: 'out'}), faults.faulty_codec(fault):
            if entry == 'core':
                n, cs, last = ref.partition(len(data), c['cs'])
                source = api.file_io.PlainFPSource(faulty(io.BytesIO(data), 'in'))
                sink = api.file_io.CompressedFPSink(faulty(mem, 'out'))
                go = lambda: api.abstract_io.pack(source, sink, n, cs, last, **kw)   # noqa: E731
            elif entry == 'file':
                api.write_file(src, data)
                go = lambda: api.bp.pack_file_to_file(src, out, chunk_size=c['cs'], **kw)   # noqa: E731
            elif entry == 'bytes':
                go = lambda: api.bp.pack_bytes_to_file(data, out, chunk_size=c['cs'], **kw)   # noqa: E731
            elif entry == 'nd core':
                sink = api.file_io.CompressedFPSink(faulty(mem, 'out'))
                go = lambda: api.numpy_io.pack_ndarray(data, sink, **kw)   # noqa: E731
            else:
                go = lambda: api.bp.pack_ndarray_to_file(data, out, **kw)   # noqa: E731
            if around is None:
                go()
            else:
                with around:
                    go()
        e = None
    except BaseException as ex:
        if isinstance(ex, HarnessError):
            raise
        e = ex
    if entry in ('core', 'nd core'):
        return e, mem.getvalue()
    return e, api.read_file(out) if os.path.exists(out) else b''


def clean_run(c, ctx):
    """The complete file and the operations that wrote it."""
    blosc.set_nthreads(1)
    f = faults.Fault()
    e, full = run_pack(c, ctx, f)
    if e is not None:
        with must_succeed('packing without a fault'):
            raise e
    try:
        return f.log, full, ref.parse(full)
    except ref.RefError as ex:
        expect(False, 'packing without a fault wrote a nonconforming file: %s', ex)


def judge_partial(c, ctx, part, full, f, what, rnd):
    """``part`` was left by an interrupted packing."""
    if len(part) >= len(full):
        # all chunks are stored: only the offsets may be incomplete
        return 'complete'
    seen = part[f.offsets_pos:f.data_pos]
    expect(seen == b'\xff' * len(seen), '%s: the offsets in the partial output (%d of %d bytes) are not all -1: %s',
           what, len(part), len(full), seen[:80].hex())
    readers = ['unpack', rnd.choice(sorted(api.READERS))]
    for r in sorted(set(readers)):
        with refused('%s: %s of the partial output (%d of %d bytes)' % (what, r, len(part), len(full))):
            api.READERS[r](ctx, part)
    if c['entry'].startswith('nd'):
        r = rnd.choice(sorted(api.ND_READERS))
        with refused('%s: %s of the partial output (%d of %d bytes)' % (what, r, len(part), len(full))):
            api.ND_READERS[r](ctx, part)
    return 'partial'


def check_faults(c, ctx):
    log, full, f = clean_run(c, ctx)
    rnd = random.Random(c['seed'])
    points = faults.pick_points(log, c['seed'], 40)
    ctx.nontrivial(len(f.chunks) > 1 and len(points) > 5)
    ctx.label(c['entry'], c['kind'], 'offsets' if c['bp']['offsets'] else 'no offsets')
    for k in points:
        fault = faults.Fault(k, c['kind'], c['part'], c['persist'])
        e, part = run_pack(c, ctx, fault)
        if not fault.fired:
            continue
        what = '%s at operation %d (%s of %d bytes)' % ((c['kind'], k) + log[k])
        expect(e is not None, '%s did not reach the caller', what)
        ctx.label(judge_partial(c, ctx, part, full, f, what, rnd) + ' ' + log[k][0])


# ------------------------------------------------------------ interrupts

def check_interrupts(c, ctx):
    log, full, f = clean_run(c, ctx)
    rnd = random.Random(c['seed'])
    probe = faults.LineInterrupt(-1)
    e, out = run_pack(c, ctx, faults.Fault(), probe)
    expect(e is None and out == full, 'packing while traced differs: %r', e)
    lines = probe.count
    points = list(range(lines)) if lines <= 25 else \
        sorted(set(rnd.sample(range(lines), 18)) | set(lines - 1 - rnd.randrange(min(lines, 40)) for _ in range(7)))
    ctx.nontrivial(len(f.chunks) > 1)
    ctx.label(c['entry'])
    for k in points:
        li = faults.LineInterrupt(k, c['kind'])
        e, part = run_pack(c, ctx, faults.Fault(), li)
        if not li.fired:
            continue
        what = '%s at line event %d of %d' % (c['kind'], k, lines)
        expect(e is not None, '%s did not reach the caller', what)
        ctx.label(judge_partial(c, ctx, part, full, f, what, rnd))


# ------------------------------------------------------------ full disk

def boundaries(f, full, rnd, n):
    marks = [0, 31, 32, f.offsets_pos, f.data_pos, f.data_pos - 1, len(full) - 1]
    for ch in f.chunks:
        marks += [ch.pos, ch.pos + 16, ch.pos + len(ch.compressed)]
    marks = sorted(set(m for m in marks if 0 <= m < len(full)))
    return rnd.sample(marks, min(len(marks), n // 2)) + [rnd.randrange(len(full)) for _ in range(n - n // 2)]


def check_disk_full(c, ctx):
    """The operating system refuses to let the output grow beyond a limit."""
    if c['entry'] not in ('file', 'bytes', 'nd file'):
        c = dict(c, entry={'core': 'file', 'nd core': 'nd file'}[c['entry']])
    log, full, f = clean_run(c, ctx)
    rnd = random.Random(c['seed'])
    ctx.nontrivial(len(f.chunks) > 1)
    ctx.label(c['entry'])
    insize = os.path.getsize(ctx.path('in')) if os.path.exists(ctx.path('in')) else 0
    for limit in boundaries(f, full, rnd, 5):
        if limit < insize:
            # the harness writes the input inside the child, too
            limit = rnd.randrange(insize, len(full)) if insize < len(full) else None
            if limit is None:
                continue

        def child(note):
            import resource
            note('disk full at %d of %d bytes' % (limit, len(full)))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            e, _ = run_pack(c, ctx, faults.Fault())
            return None if e is not None else 'the disk was full at byte %d of %d, but no error reached the caller' % (
                limit, len(full))
        guard.judge(child)
        out = ctx.path('out.blp')
        part = api.read_file(out) if os.path.exists(out) else b''
        judge_partial(c, ctx, part, full, f, 'disk full at byte %d' % limit, rnd)


# ------------------------------------------------------------ killed

def check_killed(c, ctx):
    if c['entry'] not in ('file', 'bytes', 'nd file'):
        c = dict(c, entry={'core': 'file', 'nd core': 'nd file'}[c['entry']])
    log, full, f = clean_run(c, ctx)
    rnd = random.Random(c['seed'])
    points = [k for k, (w, n) in enumerate(log) if w.startswith('out:')]
    ctx.nontrivial(len(f.chunks) > 1)
    if not points:
        return
    for k in rnd.sample(points, min(5, len(points))):
        fault = faults.Fault(k, 'EIO', c['part'], action=lambda: os.kill(os.getpid(), signal.SIGKILL))
        pid = os.fork()
        if pid == 0:
            try:
                run_pack(c, ctx, fault)
            finally:
                os._exit(0)
        _, st_ = os.waitpid(pid, 0)
        if not os.WIFSIGNALED(st_):
            continue
        out = ctx.path('out.blp')
        part = api.read_file(out) if os.path.exists(out) else b''
        what = 'killed at operation %d (%s of %d bytes)' % ((k,) + log[k])
        ctx.label(judge_partial(c, ctx, part, full, f, what, rnd) + ' ' + log[k][0])


# ------------------------------------------------------------ unpacking and appending

@st.composite
def other_cases(draw):
    c = draw(pack_cases())
    c['what'] = draw(st.sampled_from(['unpack core', 'unpack file', 'unpack bytes', 'append fp', 'append', 'unpack nd',
                                      'append fp', 'append']))
    if c['what'] == 'unpack nd':
        c['entry'], c['size'], c['items'] = 'nd core', draw(st.integers(1, 3000)), draw(st.integers(1, 800))
    elif 'cs' not in c:
        c['entry'], c['cs'], c['meta'] = 'core', draw(st.integers(1, 500)), None
        c['data'] = draw(gen.data_of_size(draw(st.integers(1, 2000))))
    if c['what'].startswith('append'):
        c['bp'] = {'offsets': True, 'checksum': c['bp']['checksum'], 'max_app': {'int': 6}}
        c['extra'] = draw(gen.data_of_size(draw(st.integers(1, 4 * c['cs']))))
    return c


def extra_data(c):
    # never more than the reserved chunks can take
    size = len(gen.make_data(c['data'])) if 'data' in c else 4 * c['size']
    return gen.make_data(c['extra'])[:5 * min(c['cs'], size) or None]


def run_other(c, ctx, full, fault):
    src, out, new = ctx.path('p.blp'), ctx.path('u'), ctx.path('new')
    faulty = lambda fp, n: faults.FaultyFP(fp, n, fault)   # noqa: E731
    w = c['what']
    api.write_file(src, full)
    if 'extra' in c:
        extra = extra_data(c)
        api.write_file(new, extra)
    mem = io.BytesIO()
    try:
        with faults.faulty_open(fault, {src: 'in', out: 'out', new: 'new'}), faults.faulty_codec(fault):
            if w == 'unpack core':
                api.abstract_io.unpack(api.file_io.CompressedFPSource(faulty(io.BytesIO(full), 'in')),
                                       api.file_io.PlainFPSink(faulty(mem, 'out')))
                return None, mem.getvalue()
            if w == 'unpack file':
                api.bp.unpack_file_from_file(src, out)
                return None, api.read_file(out)
            if w == 'unpack bytes':
                return None, api.bp.unpack_bytes_from_file(src)[0]
            if w == 'unpack nd':
                return None, api.bp.unpack_ndarray_from_file(src).tobytes()
            if w == 'append fp':
                o = io.BytesIO(full)
                api.append_mod.append_fp(faulty(o, 'orig'), faulty(io.BytesIO(extra), 'new'), len(extra))
                return None, o.getvalue()
            api.append_mod.append(src, new)
            return None, api.read_file(src)
    except BaseException as e:
        if isinstance(e, HarnessError):
            raise
        return e, None


def check_other(c, ctx):
    _, full, f = clean_run(c, ctx)
    clean = faults.Fault()
    e, result = run_other(c, ctx, full, clean)
    if e is not None:
        with must_succeed('%s without a fault' % c['what']):
            raise e
    if c['what'].startswith('append'):
        expect(ref.parse(result).data == f.data + extra_data(c), 'append without a fault')
    else:
        expect(result == f.data, '%s without a fault', c['what'])
    log = clean.log
    points = faults.pick_points(log, c['seed'], 40)
    ctx.nontrivial(len(points) > 5)
    ctx.label(c['what'], c['kind'])
    for k in points:
        fault = faults.Fault(k, c['kind'], c['part'], c['persist'])
        e, _ = run_other(c, ctx, full, fault)
        if fault.fired:
            expect(e is not None, '%s: %s at operation %d (%s of %d bytes) did not reach the caller', c['what'],
                   c['kind'], k, *log[k])
            ctx.label('failed ' + log[k][0])


# ------------------------------------------------------------ many chunks

def late_cases(tier):
    k = 0
    n = 1100 if tier == 'quick' else 5000
    marks = sorted(set(range(0, 20)) | set(words.around(20, n - 1)) | {n - 2, n - 1})
    for chunk in marks:
        for op in ('in:read', 'blosc:compress', 'out:write'):
            k += 1
            yield {'op': op, 'chunk': chunk, 'n': n, 'k': k, 'kind': sorted(faults.KINDS)[k % len(faults.KINDS)]}
    for chunk in marks:
        for op in ('in:read', 'blosc:decompress', 'out:write'):
            k += 1
            yield {'op': op, 'chunk': chunk, 'n': n, 'k': k, 'kind': sorted(faults.KINDS)[k % len(faults.KINDS)],
                   'unpack': True}


_late = {}


def check_late(c, ctx):
    """A fault at the operations on chunk c['chunk'] of many."""
    n = c['n']
    case = {'entry': 'core' if c['k'] % 4 else 'file', 'seed': 1, 'data': {'size': 2 * n, 'kind': 'rnd', 'seed': 3}, 'cs': 2,
            'meta': None, 'blosc': {'clevel': 1, 'typesize': 1},
            'bp': {'offsets': True, 'checksum': ('None', 'adler32')[c['k'] % 2], 'max_app': {'int': 2}}}
    key = repr((case, c.get('unpack')))
    if key not in _late:
        log, full, f = clean_run(case, ctx)
        other = None
        if c.get('unpack'):
            other = dict(case, what='unpack core')
            clean = faults.Fault()
            e, result = run_other(other, ctx, full, clean)
            expect(e is None and result == f.data, 'unpacking without a fault: %r', e)
            log = clean.log
        _late[key] = log, full, f, other
    log, full, f, other = _late[key]
    # the operation of that kind which comes at this chunk's share of all of them
    ops = [i for i, (w, _) in enumerate(log) if w == c['op']]
    if not ops:
        return
    at = ops[min(len(ops) - 1, len(ops) * c['chunk'] // n)]
    ctx.nontrivial()
    ctx.label(c['op'])
    fault = faults.Fault(at, c['kind'], (0.0, 0.6)[c['k'] // 3 % 2], bool(c['k'] // 6 % 2))
    what = '%s at operation %d of %d (%s)' % (c['kind'], at, len(log), c['op'])
    if other:
        e, _ = run_other(other, ctx, full, fault)
    else:
        e, part = run_pack(case, ctx, fault)
    if not fault.fired:
        return
    expect(e is not None, '%s did not reach the caller', what)
    if not other:
        judge_partial(case, ctx, part, full, f, what, random.Random(c['k']))



PARTS = [
    Enum('many chunks', late_cases, check_late,
         'reads, codec calls and writes failing at chunk k of 1100 (thorough: 5000), k at powers of two, of ten and '
         'literals of the code with neighbours, packing and unpacking; all non-trivial'),
    Gen('pack, every operation', pack_cases(), check_faults, 700, 15000,
        'every read, write, seek, tell, close and blosc call of one packing fails in turn; non-trivial: several '
        'chunks and more than five fault points'),
    Gen('pack, every line', pack_cases(4), check_interrupts, 300, 6000,
        'interrupts at the lines of the code under test; non-trivial: several chunks'),
    Gen('pack, disk full', pack_cases(), check_disk_full, 250, 5000,
        'the operating system limits the size of the output; non-trivial: several chunks'),
    Gen('pack, killed', pack_cases(), check_killed, 250, 5000,
        'SIGKILL at an operation on the output; non-trivial: several chunks'),
    Gen('unpack and append, every operation', other_cases(), check_other, 500, 10000,
        'every operation of an unpacking or appending fails in turn; non-trivial: more than five fault points'),
]
_ = ndgen
