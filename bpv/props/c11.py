"""C11: rewriting metadata in place changes only the metadata."""
from hypothesis import strategies as st

from .. import api, gen, history, ref, words
from ..core import Enum, Gen, Violation, expect, expect_eq, must_succeed, refused

ASSUMPTIONS = ['the content of the unused reserved metadata bytes is unspecified',
               'blpk append -m rewrites the metadata after the append it was asked for',
               'values that are equal in Python but not in JSON (1, 1.0, True) are not used as changes']


@st.composite
def cases(draw):
    # now and then a file without metadata, whose rewrites have to be refused
    i = draw(history.init_files(meta=None if draw(st.integers(0, 11)) == 0 else True))
    ops = st.one_of(history.rewrite_op(), history.rewrite_op(), history.rewrite_op(), history.rewrite_op(),
                    history.append_op(), history.read_op)
    return {'init': i, 'ops': draw(st.lists(ops, min_size=1, max_size=6)),
            'reader': draw(st.sampled_from(sorted(api.READERS)))}


def check(c, ctx):
    r = history.Runner(c, ctx)
    for k, op in enumerate(c['ops']):
        r.step(k, op)
    r.do_read({'reader': c['reader']}, 'the end')
    ctx.label('%d rewrites' % min(r.rewritten, 5), '%d refusals' % min(r.refused, 5))
    ctx.nontrivial(r.rewritten > 0)


# ------------------------------------- rewrites that fit exactly or just not

@st.composite
def fit_cases(draw):
    return {'meta': draw(gen.metadata_spec(allow_none=False)),
            'codec': draw(gen.meta_codecs), 'level': draw(st.integers(0, 9)),
            'checksum': draw(gen.meta_checksums), 'delta': draw(st.sampled_from([-1, -1, 0, 0, 1, -5, 30])),
            'old_codec': draw(gen.meta_codecs), 'how': draw(st.sampled_from(['mem', 'file'])),
            'offsets': draw(st.booleans()), 'size': draw(st.integers(0, 60)),
            'append': draw(st.integers(0, 50)), 'default': draw(st.booleans())}


def check_fit(c, ctx):
    new = gen.make_metadata(c['meta'])
    if new == {} or new == []:
        return
    codec, level = ('zlib', 6) if c['default'] else (c['codec'], c['level'])
    with must_succeed('packing'):
        stored = ref.parse(api.bp.pack_bytes_to_bytes(b'', metadata=new, metadata_args=api.bp.MetadataArgs(
            meta_codec=codec, meta_level=level, meta_checksum=c['checksum']))).meta_header.comp_size
        room = max(2, stored + c['delta'])
        raw = api.bp.pack_bytes_to_bytes(
            bytes(c['size']), chunk_size=16, metadata={}, metadata_args=api.bp.MetadataArgs(
                meta_codec=c['old_codec'], max_meta_size=room, meta_checksum=c['checksum']),
            bloscpack_args=api.bp.BloscpackArgs(offsets=c['offsets']))
    ctx.label('fits' if stored <= room else 'too large', 'exactly' if stored == room else None)
    ctx.nontrivial(abs(stored - room) <= 1)
    r = history.Runner.__new__(history.Runner)
    r.ctx, r.raw, r.m = ctx, raw, history.Model()
    f = ref.parse(raw)
    m = r.m
    m.data, m.metadata, m.header = bytes(c['size']), {}, f.header.dict()
    m.lens, m.cs, m.max_app = [len(p) for p in f.parts], f.header.chunk_size, f.header.max_app
    m.lens_last_known, m.unknown_offsets, m.first_unknown = True, False, 0
    r.appended = r.refused = r.rewritten = 0
    r.do_rewrite({'op': 'rewrite', 'kw': {} if c['default'] else {'codec': codec, 'level': level},
                  'meta': c['meta'], 'how': c['how']}, 'rewriting')
    expect_eq(r.rewritten, 1 if stored <= room else 0, 'number of rewrites (%d bytes into %d)' % (stored, room))
    if c['offsets'] and c['append']:
        # appending still works behind the rewritten section
        r.do_append({'size': {'base': 'abs', 'mul': 0, 'delta': c['append']}, 'kind': 'rnd', 'seed': 1,
                     'blosc': None, 'how': 'mem', 'skip': 0, 'extra': 0}, 'append')
    r.do_read({'reader': 'unpack_bytes_from_bytes'}, 'the end')


# ------------------------------------- sizes at boundaries

def grid_cases(tier):
    k = 0
    top = 2 ** 17 + 1 if tier == 'quick' else 2 ** 22
    sizes = sorted(set(range(2, 40)) | set(words.around(40, top)))
    for n in sizes:
        # old size and reserved space relative to the new size n of uncompressed JSON text
        for old, room in ((2, n), (2, n - 1), (n + 5, n + 5), (n - 1, n - 1), (max(2, n // 2), 2 * n), (2 * n, 2 * n),
                          (n + 100, 2 * n + 100)):
            if room < 2 or old < 2 or old > room:
                continue
            k += 1
            yield {'n': n, 'old': old, 'room': room, 'k': k}


def text(n, k):
    """A string whose JSON form takes n bytes and differs from any other."""
    return (chr(97 + k % 26) + 'the quick brown fox jumps over it ' * (n // 30 + 1))[:max(0, n - 2)]


def check_grid(c, ctx):
    k, n = c['k'], c['n']
    ck = gen.CHECKSUMS[k % len(gen.CHECKSUMS)]
    old, new = text(c['old'], k), text(n, k + 1)
    if old == new:
        return
    codec = ('None', 'zlib')[k // 2 % 2]
    with must_succeed('packing'):
        raw = api.bp.pack_bytes_to_bytes(
            bytes(20), chunk_size=8, metadata=old, metadata_args=api.bp.MetadataArgs(
                meta_codec='None', max_meta_size=c['room'], meta_checksum=ck),
            bloscpack_args=api.bp.BloscpackArgs(offsets=bool(k % 3), checksum=ck))
    r = history.Runner.__new__(history.Runner)
    r.ctx, r.raw, r.m = ctx, raw, history.Model()
    f = ref.parse(raw)
    m = r.m
    m.data, m.metadata, m.header = bytes(20), old, f.header.dict()
    m.lens, m.cs, m.max_app = [len(p) for p in f.parts], f.header.chunk_size, f.header.max_app
    m.lens_last_known, m.unknown_offsets, m.first_unknown = True, False, 0
    r.appended = r.refused = r.rewritten = 0
    r.do_rewrite({'op': 'rewrite', 'kw': {'codec': codec, 'level': k % 10}, 'meta': {'v': new},
                  'how': ('mem', 'file')[k % 2]}, 'rewriting')
    if codec == 'None':
        expect_eq(r.rewritten, 1 if n <= c['room'] else 0, 'number of rewrites (%d bytes into %d)' % (n, c['room']))
    if r.rewritten and k % 2:
        # and back again
        r.do_rewrite({'op': 'rewrite', 'kw': {'codec': 'None'}, 'meta': {'v': old}, 'how': 'mem'}, 'rewriting again')
        expect_eq(r.rewritten, 2, 'rewriting what was there before')
    ctx.nontrivial(r.rewritten > 0)
    r.do_read({'reader': sorted(api.READERS)[k % len(api.READERS)]}, 'the end')


# ------------------------------------- every combination of overrides

def override_cases(tier):
    cks = gen.CHECKSUMS + [None, 'nope']
    for old_ck in gen.CHECKSUMS:
        for old_codec in ('None', 'zlib'):
            for ck in cks:
                yield {'old_ck': old_ck, 'old_codec': old_codec, 'ck': ck}


def check_override(c, ctx):
    """Each: codec override x level x whether the override is given at all."""
    ctx.nontrivial()
    for size in (3, 200):
        for codec in ('None', 'zlib', None, 'absent', 'nope'):
            for level in (0, 1, 9, None, 'absent', 10):
                if [c['ck'] == 'nope', codec == 'nope', level == 10].count(True) > 1:
                    continue
                kw = {'checksum': c['ck'], 'codec': codec, 'level': level}
                kw = dict((a, b) for a, b in kw.items() if b != 'absent')
                bad_ck = c['ck'] == 'nope' or c['ck'] is not None and \
                    ref.DIGEST_SIZE[c['ck']] != ref.DIGEST_SIZE[c['old_ck']]
                if bad_ck and (codec == 'nope' or level == 10):
                    continue
                r = history.Runner({'init': {
                    'how': 'bytes', 'meta': {'v': {'a': 'b' * size}}, 'checksum': 'adler32', 'max_app': 1, 'cs': 9,
                    'data': {'size': 20, 'kind': 'rnd', 'seed': 1}, 'blosc': None,
                    'margs': {'meta_checksum': c['old_ck'], 'meta_codec': c['old_codec'], 'meta_level': 4,
                              'reserve': {'int': 400}}}}, ctx)
                for value in ('x' * size, ['y']):
                    r.do_rewrite({'op': 'rewrite', 'kw': kw, 'meta': {'v': value}, 'how': 'mem'}, 'rewriting')
                r.do_read({'reader': 'unpack_bytes_from_bytes'}, 'the end')


PARTS = [
    Enum('grid', grid_cases, check_grid,
         'sizes of the new metadata at powers of two, of ten and literals of the code with neighbours, against '
         'exact, slightly smaller and larger reservations; non-trivial: the rewrite succeeded'),
    Enum('overrides', override_cases, check_override,
         'every old checksum and codec x every checksum, codec and level override, absent ones and unknown '
         'names; all non-trivial'),
    Gen('histories', cases(), check, 1600, 50000,
        'histories of rewrites (all overrides, valid and invalid, same value, too large), appends and '
        'reads; non-trivial: at least one rewrite succeeded'),
    Gen('exact fit', fit_cases(), check_fit, 1200, 30000,
        'rewrites of metadata whose stored size is within a few bytes of the reserved space; '
        'non-trivial: within one byte'),
]
