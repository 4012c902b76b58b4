"""C08: arbitrary or hostile input is contained."""
import io
import os
import struct
import subprocess
import sys
import time

from hypothesis import strategies as st

from .. import api, env, gen, guard, ndgen, ref
from ..core import Enum, Gen, HarnessError, Violation, in_sut
from . import c05

from bloscpack import cli

ASSUMPTIONS = [
    'MemoryError and RecursionError are ordinary exceptions',
    'a child has 20 CPU seconds and 3 GB of address space (a normal case needs milliseconds)',
    'writes outside an array are seen if they reach a 64 KiB red zone or crash the process']

OPS = ['bytes', 'array', 'append', 'memory', 'info', 'file']


def run_ops(raw, ops, note, tmp, ok=None):
    """In the child: returns a verdict or None; ``ok`` collects the operations
    that accepted the input."""
    for op in ops:
        note('%s of %d bytes %s' % (op, len(raw), raw[:600].hex()))
        try:
            if op == 'bytes':
                api.bp.unpack_bytes_from_bytes(raw)
            elif op == 'array':
                with guard.guarded_arrays() as g:
                    try:
                        a = api.bp.unpack_ndarray_from_bytes(raw)
                        if a.nbytes < 1 << 20:
                            a.tobytes()
                            if a.dtype.hasobject:
                                list(a.flat)
                    finally:
                        if g.bad():
                            return 'memory outside the array was overwritten'
            elif op == 'append':
                f = io.BytesIO(raw)
                api.append_mod.append_fp(f, io.BytesIO(b'0123456789' * 20), 200)
            elif op == 'memory':
                api.READERS['unpack_to_memory'](None, raw)
            elif op == 'file':
                p = tmp('x.blp')
                api.write_file(p, raw)
                api.bp.unpack_file_from_file(p, tmp('x'))
            elif op == 'info':
                p = tmp('y.blp')
                api.write_file(p, raw)
                sys.argv = ['blpk', 'info', p]
                try:
                    cli.main()
                except SystemExit:
                    pass
            if ok is not None:
                ok.append(op)
        except BaseException as e:
            if isinstance(e, HarnessError) or not in_sut(e) and not isinstance(e, (MemoryError, RecursionError)):
                raise
            if not guard.ordinary(e):
                return '%s raised %s: %s' % (op, type(e).__name__, e)
    return None


def decide(raws, ops, ctx):
    def child(note):
        guard.quiet_stdio()
        for i, raw in enumerate(raws):
            v = run_ops(raw, ops, note, ctx.path)
            if v:
                return 'input %d: %s' % (i, v)
        return None
    guard.judge(child)


# -------------------------------------------------------- base files

@st.composite
def np_meta_value(draw):
    """Hostile and half-plausible array descriptions."""
    dtypes = ["'<f8'", "'|O'", "'O'", "'<u1'", "'V0'", "'S0'", "'<M8[ns]'", "'S99999999999'",
              "[('a', '<f8'), ('b', 'O')]", "[('a', '|O')]", "[('a', '<i4', (2147483647, 4))]",
              "[('a', '<i4', -1)]", "[('', '|V8')]", "[]", "()", "{}", "('<f8', (3,))", "None", "1", "''",
              "[('a','<f8'),('a','<f8')]", "__import__('os')", "[" * 300, "'(3,)O'", "'<i4,O'",
              "{'names': ['a'], 'formats': ['O']}", "'|b1'", "'U'", "'datetime64'", "[('a', ('<f8', 'O'))]",
              "((('<f8', 2), 2), 2)", "'a'", "object", "<f8", "|O", "('O', (2,))", "(('O', 2), 1)",
              "[['a', '<f8']]", "[('a', [('b', [('c', 'O')])])]", "'object'", "'O8'", "'i1'"]
    # expressions that must not be evaluated: each ends the process, without an exception
    calls = ["exit()", "quit(0)", "__import__('os')._exit(0)", "__import__('os').abort()",
             "__import__('sys').exit(0)", "[c for c in ().__class__.__base__.__subclasses__() if c.__name__ == "
             "'Quitter'][0]('x')()", "(_ for _ in ()).throw(SystemExit)", "__import__('os').kill(__import__('os')"
             ".getpid(), 9)", "f\"{__import__('os')._exit(0)}\"", "[('a', __import__('os')._exit(0))]"]
    dtypes += [draw(st.sampled_from(calls)), draw(st.sampled_from(calls))]
    dt = draw(st.one_of(st.sampled_from(dtypes), st.sampled_from(dtypes),
                        st.sampled_from(['<f8', ['a', '<f8'], [['a', 'O']], [['a', [['b', 'O']]]], None, 5,
                                         [[]], [], {}, [[['a']]]]),
                        gen.json_value))
    shape = draw(st.one_of(
        st.sampled_from([[], [0], [1], [3], [2, 2], [-1], [2 ** 31], [2 ** 40], [2 ** 62], [2 ** 63], [2 ** 64, 0],
                         [0, 2 ** 62], [1.5], ['3'], None, 5, -5, 'ab', [[1]], {}, [True], [1] * 33, [2 ** 31, 2 ** 33],
                         [65536, 65536, 65536, 65536, 65536], [10 ** 6]]),
        st.lists(st.integers(-2, 40), max_size=4)))
    order = draw(st.sampled_from(['C', 'F', 'C', 'F', 'A', 'K', 'x', '', None, 1, [], 'CF']))
    v = {'dtype': dt, 'shape': shape, 'order': order, 'container': 'numpy'}
    k = draw(st.integers(0, 12))
    if k == 0:
        del v[draw(st.sampled_from(sorted(v)))]
    elif k == 1:
        v['container'] = draw(st.sampled_from(['Numpy', None, 1, [], 'numpy ', {}]))
    return v


@st.composite
def base(draw):
    how = draw(st.integers(0, 3))
    if how == 0:
        b = draw(c05.cases())
        b['readers'] = []
    elif how == 1:
        a = draw(ndgen.array_spec(max_items=60, depth=1))
        b = {'a': a, 'bp': draw(gen.bloscpack_spec()), 'items': draw(st.integers(1, 30)),
             'ts': 0}
    else:
        b = draw(c05.cases())
        b['readers'] = []
        b['chunks'] = b['chunks'][:3]
        if isinstance(b['offsets'], list):
            b['offsets'] = b['offsets'][:3]
        b['meta'] = draw(c05.meta_spec(value=draw(np_meta_value())))
    return b


def build(b):
    if 'a' in b:
        a = ndgen.make_array(b['a'])
        return api.bp.pack_ndarray_to_bytes(a, chunk_size=b['items'] * a.itemsize,
                                            bloscpack_args=gen.make_bloscpack_args(b['bp']))
    return c05.build(b)[0]


BOUND32 = [0, 1, -1, 2, 15, 16, 17, 255, 256, 2 ** 15, 2 ** 16, 2 ** 30, 2 ** 31 - 1, -2 ** 31,
           -2 ** 31 + 1, -2, -16, api.blosc.BLOSC_MAX_BUFFERSIZE - 2 ** 31, 2 ** 31 - 17, 2 ** 24, 2 ** 20]
BOUND64 = [0, 1, -1, 2, 3, 10, 255, 2 ** 20, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 60 - 1, 2 ** 60, 2 ** 61, 2 ** 62,
           2 ** 63 - 1, -2 ** 63, -2, -2 ** 62, 2 ** 63 - 2]
FIELDS = ['version', 'options', 'checksum', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
          'max_app', 'm.magic', 'm.options', 'm.checksum', 'm.codec', 'm.level', 'm.size',
          'm.max_size', 'm.comp_size', 'offset', 'offset', 'c.version', 'c.versionlz', 'c.flags', 'c.typesize',
          'c.nbytes', 'c.blocksize', 'c.ctbytes', 'c.ctbytes', 'c.nbytes']

mutations = st.one_of(
    st.fixed_dictionaries({'m': st.just('field'), 'f': st.sampled_from(FIELDS), 'k': st.integers(0, 40),
                           'v': st.one_of(st.integers(0, 40), st.integers(-2 ** 63, 2 ** 63 - 1)),
                           'rel': st.sampled_from([None, None, -1, 1, 16])}),
    st.fixed_dictionaries({'m': st.just('field'), 'f': st.sampled_from(FIELDS), 'k': st.integers(0, 40),
                           'v': st.integers(0, 40), 'rel': st.none()}),
    st.fixed_dictionaries({'m': st.sampled_from(['flip', 'set', 'insert', 'delete', 'dup', 'trunc', 'zero', 'extend']),
                           'at': st.integers(0, 5000), 'v': st.integers(0, 2 ** 32)}))

LAYOUT = {'version': (4, 'B'), 'options': (5, 'B'), 'checksum': (6, 'B'), 'typesize': (7, 'B'),
          'chunk_size': (8, 'i'), 'last_chunk': (12, 'i'), 'nchunks': (16, 'q'), 'max_app': (24, 'q'),
          'm.magic': (32, 'B'), 'm.options': (40, 'B'), 'm.checksum': (41, 'B'), 'm.codec': (42, 'B'),
          'm.level': (43, 'B'), 'm.size': (44, 'i'), 'm.max_size': (48, 'i'), 'm.comp_size': (52, 'i')}
CHUNK = {'c.version': (0, 'B'), 'c.versionlz': (1, 'B'), 'c.flags': (2, 'B'), 'c.typesize': (3, 'B'),
         'c.nbytes': (4, 'i'), 'c.blocksize': (8, 'i'), 'c.ctbytes': (12, 'i')}


def mutate(raw, muts):
    try:
        f = ref.parse(raw, strict=False)
        chunk_pos = [c.pos for c in f.chunks]
        offs_pos = [f.offsets_pos + 8 * i for i in range(f.header.nchunks)] if f.header.offsets else []
    except ref.RefError:
        chunk_pos, offs_pos = [], []
    b = bytearray(raw)
    for m in muts:
        if m['m'] == 'field':
            name = m['f']
            if name in LAYOUT:
                pos, fmt = LAYOUT[name]
            elif name == 'offset':
                if not offs_pos:
                    continue
                pos, fmt = offs_pos[-1 - m['k'] % min(2, len(offs_pos))], 'q'
            else:
                if not chunk_pos:
                    continue
                rel, fmt = CHUNK[name]
                pos = chunk_pos[m['k'] % len(chunk_pos)] + rel
            size = struct.calcsize(fmt)
            if pos + size > len(b):
                continue
            old = int.from_bytes(b[pos:pos + size], 'little', signed=True)
            if m['rel'] is not None:
                v = old + m['rel']
            elif 0 <= m['v'] <= 40:
                v = (BOUND64 if fmt == 'q' else BOUND32)[m['v'] % (len(BOUND64) if fmt == 'q' else len(BOUND32))] \
                    if fmt != 'B' else [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 64, 127, 128, 255][m['v'] % 16]
            else:
                v = m['v']
            b[pos:pos + size] = (v & ((1 << 8 * size) - 1)).to_bytes(size, 'little')
            continue
        if not b:
            b = bytearray(b'blpk\x03')
        at, v = m['at'] % len(b), m['v']
        if m['m'] == 'flip':
            b[at] ^= 1 << v % 8
        elif m['m'] == 'set':
            b[at] = v % 256
        elif m['m'] == 'insert':
            b[at:at] = gen.rnd_bytes(v, v % 40)
        elif m['m'] == 'delete':
            del b[at:at + 1 + v % 40]
        elif m['m'] == 'dup':
            b[at:at] = b[at:at + 1 + v % 200]
        elif m['m'] == 'trunc':
            del b[at:]
        elif m['m'] == 'zero':
            n = min(len(b), at + 1 + v % 40) - at
            b[at:at + n] = bytes(n)
        elif m['m'] == 'extend':
            b += gen.rnd_bytes(v, v % 300)
    return bytes(b)


@st.composite
def cases(draw):
    return {'base': draw(base()), 'muts': draw(st.lists(mutations, min_size=0, max_size=4)),
            'nock': draw(st.booleans())}


def check(c, ctx):
    b = c['base']
    if c['nock']:
        # without checksums damage gets past the first line of defence
        if 'a' in b:
            b = dict(b, bp=dict(b['bp'] or {}, checksum='None'))
        else:
            b = dict(b, checksum='None')
            if b['meta'] is not None:
                b['meta'] = dict(b['meta'], checksum='None')
    raw = build(b)
    bad = mutate(raw, c['muts'])
    ctx.label('array' if 'a' in b else 'file', 'no checksum' if c['nock'] else None,
              *[m.get('f', m['m']) for m in c['muts']])
    ctx.nontrivial(bad != raw or 'a' not in b)
    decide([bad], OPS, ctx)


# -------------------------------------------------------- exhaustive single bytes

VALUES = [0x00, 0x01, 0x02, 0x03, 0x10, 0x20, 0x7f, 0x80, 0xff]


def small_files():
    import numpy as np
    A = api.bp.BloscpackArgs
    out = []
    for ck in ('None', 'adler32'):
        M = api.bp.MetadataArgs(meta_checksum=ck, meta_codec='None', max_meta_size=lambda n: n + 3)
        out.append(api.bp.pack_bytes_to_bytes(bytes(range(50)), chunk_size=20,
                                              bloscpack_args=A(checksum=ck, offsets=True, max_app_chunks=2)))
        out.append(api.bp.pack_bytes_to_bytes(b'a' * 70, chunk_size=40, metadata={'a': 1}, metadata_args=M,
                                              bloscpack_args=A(checksum=ck, offsets=False)))
        out.append(api.bp.pack_ndarray_to_bytes(
            np.arange(12, dtype='<i2').reshape(3, 4), chunk_size=16, metadata_args=M,
            bloscpack_args=A(checksum=ck, offsets=True, max_app_chunks=1)))
    out.append(ref.encode_file([api.blosc.compress(b'xyz' * 5, typesize=1)], offsets=None))
    return out


_small = []


def enum_cases(tier):
    if not _small:
        _small.extend(small_files())
    for k, raw in enumerate(_small):
        for at in range(0, len(raw), 4):
            yield {'file': k, 'at': at}


def check_enum(c, ctx):
    if not _small:
        _small.extend(small_files())
    raw = _small[c['file']]
    bads = []
    for at in range(c['at'], min(len(raw), c['at'] + 4)):
        for v in VALUES + [raw[at] ^ 1, (raw[at] + 1) % 256, (raw[at] - 1) % 256]:
            if v != raw[at]:
                bads.append(raw[:at] + bytes([v]) + raw[at + 1:])
    ctx.nontrivial()
    decide(bads, ['bytes', 'array', 'append', 'memory'], ctx)


# -------------------------------------------------------- no structure at all

@st.composite
def raw_cases(draw):
    return {'magic': draw(st.booleans()), 'hex': draw(st.binary(max_size=120)).hex(),
            'options': draw(st.integers(0, 3))}


def check_raw(c, ctx):
    b = bytes.fromhex(c['hex'])
    if c['magic']:
        b = b'blpk\x03' + bytes([c['options']]) + b
    ctx.nontrivial(c['magic'])
    decide([b], OPS, ctx)


# -------------------------------------------------------- every field, every boundary value

def field_cases(tier):
    names = sorted(set(FIELDS))
    if not _small:
        _small.extend(small_files())
    for k in range(len(_small)):
        for f in names:
            yield {'file': k, 'fields': [f]}
    pairs = [('nchunks', 'max_app'), ('chunk_size', 'last_chunk'), ('chunk_size', 'nchunks'),
             ('last_chunk', 'nchunks'), ('m.max_size', 'm.comp_size'), ('m.size', 'm.comp_size'),
             ('c.nbytes', 'c.ctbytes'), ('c.nbytes', 'c.blocksize'), ('options', 'nchunks'),
             ('c.nbytes', 'last_chunk'), ('chunk_size', 'c.nbytes'), ('typesize', 'c.typesize')]
    for k in range(len(_small)) if tier == 'thorough' else (0, 2):
        for p in pairs:
            for v in range(len(BOUND64)):
                yield {'file': k, 'fields': p, 'v': v}


def check_fields(c, ctx):
    if not _small:
        _small.extend(small_files())
    raw = _small[c['file']]
    bads = set()
    first = [c['v']] if 'v' in c else range(len(BOUND32))
    for v in first:
        m1 = {'m': 'field', 'f': c['fields'][0], 'v': v, 'k': 0, 'rel': None}
        if len(c['fields']) == 1:
            for k in (0, 1):
                bads.add(mutate(raw, [dict(m1, k=k)]))
                for rel in (-16, -1, 1, 16):
                    bads.add(mutate(raw, [dict(m1, k=k, rel=rel)]))
        else:
            for w in range(len(BOUND32)):
                bads.add(mutate(raw, [m1, dict(m1, f=c['fields'][1], v=w)]))
    bads.discard(raw)
    ctx.nontrivial(bads)
    decide(sorted(bads), ['bytes', 'array', 'append', 'memory', 'info'], ctx)


# -------------------------------------------------------- guided by coverage

def seed_files():
    """Small files of every kind; without checksums damage gets further."""
    import numpy as np
    A, M = api.bp.BloscpackArgs, api.bp.MetadataArgs
    out = small_files()
    N = A(checksum='None', offsets=True, max_app_chunks=1)
    m = M(meta_checksum='None')
    for a in (np.arange(6.), np.zeros((2, 0)), np.array(5, '>i4'), np.array([b'ab', b'c']),
              np.array([[(1, (2., 3))]], dtype=[('a', 'u1'), ('b', [('c', '<f4'), ('d', '<f8')])]),
              np.asfortranarray(np.eye(3, dtype='<c8'))):
        out.append(api.bp.pack_ndarray_to_bytes(a, chunk_size=max(1, 2 * a.itemsize), bloscpack_args=N,
                                                metadata_args=m))
    chunk = api.blosc.compress(b'0123456789abcdef' * 3, typesize=8)
    for d, order in (('"|O"', 'C'), ('[["a", "O"]]', 'F'), ("\"'<f8'\"", 'C'), ("\"[('a', 'O')]\"", 'C')):
        out.append(ref.encode_file([chunk], chunk_size=48, last_chunk=48, meta={
            'raw': ('{"dtype": %s, "shape": [6], "order": "%s", "container": "numpy"}' % (d, order)).encode(),
            'codec': 'None'}))
    out.append(ref.encode_file([chunk, chunk[:16] + chunk[16:]], offsets=None, meta={
        'raw': b'{"a": [1, null]}', 'codec': 'zlib', 'reserve': 5}))
    return out


def fuzz_cases(tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sets = ['bytes', 'array', 'append', 'memory', 'bytes,array', 'array', 'append,memory', 'array,info']
    for rnd in range(1 if tier == 'quick' else 6):
        for k, ops in enumerate(sets):
            yield {'ops': ops, 'seed': seed * 1000 + rnd * 10 + k,
                   'runs': (40000 if tier == 'quick' else 1000000) // (8 if 'info' in ops else 1),
                   'seconds': 25 if tier == 'quick' else 600}


def shorten(raw, fails, seconds=40):
    """Removes what the failure does not need."""
    end = time.time() + seconds
    n = max(1, len(raw) // 2)
    while n and time.time() < end:
        at = 0
        while at < len(raw) and time.time() < end:
            if fails(raw[:at] + raw[at + n:]):
                raw = raw[:at] + raw[at + n:]
            else:
                at += n
        n //= 2
    return raw


def check_fuzz(c, ctx):
    if 'raw' in c:
        decide([bytes.fromhex(c['raw'])], OPS, ctx)
        return
    work = ctx.path('fuzz')
    os.mkdir(work)
    ops = c['ops'].split(',')
    with open(ctx.path('log'), 'w') as log:
        subprocess.run([sys.executable, '-m', 'bpv.fuzz', c['ops'], str(c['runs']), str(c['seed']), work,
                        str(c['seconds'])], cwd=env.VERIF, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                       timeout=c['seconds'] * 2 + 120)
    try:
        with open(os.path.join(work, 'count'), 'rb') as fp:
            n, ok = struct.unpack('<qq', fp.read())
    except (OSError, struct.error):
        raise HarnessError('no campaign: %s' % open(ctx.path('log')).read()[-2000:])
    # whatever the campaign complains about is decided again without it
    for name in sorted(os.listdir(os.path.join(work, 'artifacts'))):
        with open(os.path.join(work, 'artifacts', name), 'rb') as fp:
            raw = fp.read()

        def fails(b):
            try:
                decide([b], ops, ctx)
            except Violation:
                return True
            return False
        if fails(raw):
            raw = shorten(raw, fails)
            try:
                decide([raw], OPS, ctx)
            except Violation as e:
                raise Violation('%s (found by coverage-guided search)' % e, {'raw': raw.hex()})
        ctx.label('complaint not confirmed')
    ctx.executed = n
    ctx.counts['accepted'] = ok
    ctx.counts['in corpus'] = len(os.listdir(os.path.join(work, 'corpus')))
    ctx.nontrivial(n >= 1000)


PARTS = [
    Enum('single bytes', enum_cases, check_enum,
         'every byte of seven small files replaced by up to 12 boundary values'),
    Enum('fields', field_cases, check_fields,
         'every header, metadata, offset and chunk field of seven small files set to 21 boundary values, and '
         'pairs of related fields'),
    Gen('mutants', cases(), check, 3600, 120000,
        'valid files, array files and files with hostile array descriptions, changed by up to four '
        'field or byte mutations, given to six operations; non-trivial: changed or hostile'),
    Enum('coverage', fuzz_cases, check_fuzz,
         'campaigns of atheris/libFuzzer with bloscpack instrumented, from 20 seed files, with byte and field-aware '
         'mutators; a complaint counts when the plain operation confirms it; non-trivial: 1000 inputs or more'),
    Gen('raw', raw_cases(), check_raw, 400, 20000,
        'arbitrary bytes, half of them behind a valid start; non-trivial: valid start'),
]
