"""Histories of appends and metadata rewrites, run against a reference model.

A history is {'init': ..., 'ops': [...]}; all sizes in operations are relative
to the state they meet ('space' left in the last chunk, 'cap'acity left), so
that every operation stays meaningful while a history shrinks.
"""
import io
import json
import os

from hypothesis import strategies as st

from . import api, gen, ndgen, ref
from .core import Violation, expect, expect_eq, must_succeed, refused

import bloscpack.exceptions as exc

MAX_APPEND = 300000     # bytes one generated operation may append

# ------------------------------------------------------------ initial files


@st.composite
def init_files(draw, meta=None):
    how = draw(gen.weighted((6, st.just('bytes')), (1, st.just('array')), (2, st.just('foreign'))))
    m = draw(st.one_of(st.none(), gen.metadata_spec(allow_none=False))) if meta is None else \
        draw(gen.metadata_spec(allow_none=False))
    i = {'how': how, 'meta': m, 'checksum': draw(st.sampled_from(gen.CHECKSUMS)),
         'max_app': draw(st.sampled_from([0, 1, 2, 3, 5, 8, 20, 100]))}
    if how == 'array':
        i['a'] = draw(ndgen.array_spec(max_items=80, depth=1))
        i['items'] = draw(st.integers(1, 30))
        i['blosc'] = draw(gen.blosc_spec())
        i['max_app_spec'] = draw(st.one_of(st.none(), gen.max_app_spec(limit=20)))
        return i
    cs = draw(gen.weighted((5, st.integers(1, 64)), (3, st.integers(65, 1500)),
                           (1, st.integers(1501, 20000))))
    n = draw(st.integers(1, 6))
    last = draw(st.one_of(st.integers(1, cs), st.sampled_from([1, cs, max(1, cs - 1)])))
    size = cs * (n - 1) + last
    if draw(st.integers(0, 11)) == 0:
        size = 0
    i.update(cs=cs, size=size, data=draw(gen.data_of_size(size, period=cs)))
    if how == 'bytes':
        i['blosc'] = draw(gen.blosc_spec())
        i['margs'] = draw(gen.metadata_args_spec())
        if draw(st.integers(0, 2)) == 0:
            i['max_app_spec'] = draw(gen.max_app_spec(limit=20))
    else:
        i['typesize'] = draw(gen.typesizes)
        i['last'] = draw(st.sampled_from(['true', 'true', 'unknown']))
        i['reserve'] = draw(st.sampled_from([0, 1, 10, 200]))
        i['meta_codec'] = draw(gen.meta_codecs)
        i['meta_checksum'] = draw(gen.meta_checksums)
        i['mixed'] = draw(st.booleans())
        i['first_offsets_unknown'] = draw(st.integers(0, 3)) == 0
    return i


class Model(object):
    """What the file has to look like."""


def build(i, offsets=True):
    """(raw file, model)"""
    m = Model()
    meta = gen.make_metadata(i['meta'])
    mx = {'int': i['max_app']} if i.get('max_app_spec') is None else i['max_app_spec']
    bp_args = gen.make_bloscpack_args({'offsets': offsets, 'checksum': i['checksum'], 'max_app': mx})
    if i['how'] == 'array':
        a = ndgen.make_array(i['a'])
        with must_succeed('packing the original'):
            raw = api.bp.pack_ndarray_to_bytes(
                a, chunk_size=a.itemsize * i['items'], blosc_args=gen.make_blosc_args(i['blosc']),
                bloscpack_args=bp_args)
        m.data = None    # padding bytes are arbitrary: take the content as stored (C03 checks it)
    elif i['how'] == 'bytes':
        m.data = gen.make_data(i['data'])
        with must_succeed('packing the original'):
            raw = api.bp.pack_bytes_to_bytes(
                m.data, chunk_size=i['cs'], metadata=meta, metadata_args=gen.make_metadata_args(i['margs']),
                blosc_args=gen.make_blosc_args(i['blosc']), bloscpack_args=bp_args)
    else:
        m.data = gen.make_data(i['data'])
        n, cs, last = ref.partition(len(m.data), i['cs'])
        chunks = []
        for k in range(n):
            cn = gen.CNAMES[k % len(gen.CNAMES)] if i['mixed'] else 'lz4'
            chunks.append(api.blosc.compress(m.data[k * cs:(k + 1) * cs], typesize=i['typesize'],
                                             clevel=5, shuffle=1, cname=cn))
        known = [True] * n
        if i['first_offsets_unknown']:
            known = [False] * (n - 1) + [True]
        raw = ref.encode_file(
            chunks, checksum=i['checksum'], offsets=known if offsets else None,
            max_app=i['max_app'] if offsets else 0,
            typesize=i['typesize'], chunk_size=cs, last_chunk=last if i['last'] == 'true' else -1,
            meta=None if meta is None else {
                'raw': json.dumps(meta).encode(), 'codec': i['meta_codec'], 'checksum': i['meta_checksum'],
                'reserve': i['reserve']})
    m.strict = not (i['how'] == 'foreign' and (i['last'] != 'true' or i['first_offsets_unknown']))
    try:
        f = ref.parse(raw, strict=m.strict)
    except ref.RefError as e:
        raise Violation('the original file does not conform: %s' % e)
    if m.data is None:
        m.data = f.data
    expect_eq(f.data, m.data, 'content of the original')
    m.metadata = f.metadata
    m.header = f.header.dict()
    m.lens = [len(p) for p in f.parts]
    m.cs = f.header.chunk_size
    m.max_app = f.header.max_app
    m.lens_last_known = f.header.last_chunk != -1
    m.unknown_offsets = i['how'] == 'foreign' and i['first_offsets_unknown']
    return raw, m


def verify(raw, m, what, meta_section=None):
    """The file is exactly what the model says."""
    lax = m.unknown_offsets or not m.lens_last_known
    try:
        f = ref.parse(raw, strict=not lax)
    except ref.RefError as e:
        raise Violation('after %s the file does not conform: %s' % (what, e))
    expect_eq(f.end, len(raw), 'end of the last chunk after ' + what)
    expect_eq(f.data, m.data, 'content after ' + what)
    expect_eq([len(p) for p in f.parts], m.lens, 'chunk sizes after ' + what)
    want = dict(m.header, nchunks=len(m.lens), chunk_size=m.cs, max_app=m.max_app,
                last_chunk=m.lens[-1] if m.lens_last_known else -1)
    expect_eq(f.header.dict(), want, 'header after ' + what)
    expect(ref.strict_eq(f.metadata, m.metadata), 'metadata after %s: %r instead of %r', what,
           f.metadata, m.metadata)
    if f.header.offsets:
        for k, (o, c) in enumerate(zip(f.used_offsets, f.chunks)):
            if not (m.unknown_offsets and o == -1 and k < m.first_unknown):
                expect_eq(o, c.pos, 'offset %d after %s' % (k, what))
        expect(all(o == -1 for o in f.free_offsets), 'reserved offsets after %s: %r', what, f.free_offsets[:9])
    if meta_section is not None:
        expect_eq(raw[32:f.meta_end], meta_section, 'metadata section after ' + what)
    return f


# ------------------------------------------------------------ operations

size_spec = st.one_of(
    st.fixed_dictionaries({'base': st.sampled_from(['abs', 'space', 'chunks', 'chunks', 'cap', 'space+cap']),
                           'mul': st.integers(0, 4), 'delta': st.sampled_from([-1, 0, 0, 0, 1])}),
    st.fixed_dictionaries({'base': st.just('abs'), 'mul': st.just(1), 'delta': st.integers(0, 300)}))


def resolve_size(s, m):
    space = m.cs - m.lens[-1]
    b = s['base']
    n = {'abs': 0, 'space': space, 'chunks': space + m.cs * s['mul'], 'cap': m.cs * m.max_app,
         'space+cap': space + m.cs * m.max_app}[b] + s['delta']
    return max(0, n if b == 'abs' else min(n, MAX_APPEND))


@st.composite
def append_blosc(draw):
    """None, a BloscArgs, or a plain dict in which None means 'unspecified'."""
    s = draw(gen.blosc_spec())
    if s is None:
        return None
    full = dict.fromkeys(['typesize', 'clevel', 'shuffle', 'cname'])
    full.update(s)
    return {'as': draw(st.sampled_from(['dict', 'BloscArgs'])), 'v': full}


def make_append_blosc(s):
    if s is None:
        return None
    return dict(s['v']) if s['as'] == 'dict' else api.bp.BloscArgs(**s['v'])


@st.composite
def append_op(draw):
    return {'op': 'append', 'size': draw(size_spec), 'kind': draw(st.sampled_from(gen.KINDS)),
            'seed': draw(gen.seeds), 'blosc': draw(append_blosc()),
            'how': draw(gen.weighted((4, st.just('mem')), (3, st.just('names')), (2, st.just('file')),
                                     (1, st.just('cli')))),
            'skip': draw(st.sampled_from([0, 0, 0, 3])), 'extra': draw(st.sampled_from([0, 0, 0, 7]))}


BAD_VALUES = [('typesize', 0), ('typesize', 256), ('typesize', -1), ('typesize', 'x'), ('typesize', 1.5),
              ('clevel', 10), ('clevel', -1), ('clevel', 'x'), ('clevel', 2.5), ('shuffle', 3),
              ('shuffle', -1), ('shuffle', 'x'), ('cname', 'nope'), ('cname', ''), ('cname', 'LZ4'), ('cname', 7)]


@st.composite
def bad_append_op(draw):
    full = {'typesize': draw(gen.typesizes), 'clevel': draw(st.integers(0, 9)),
            'shuffle': True, 'cname': draw(gen.codec_names)}
    why = draw(st.sampled_from(['missing', 'extra', 'value', 'value']))
    if why == 'missing':
        for k in draw(st.sets(st.sampled_from(sorted(full)), min_size=1)):
            del full[k]
    elif why == 'extra':
        full[draw(st.sampled_from(['level', 'nthreads', 'checksum', 'Typesize', '']))] = 1
    else:
        k, v = draw(st.sampled_from(BAD_VALUES))
        full[k] = v
    return {'op': 'bad append', 'why': why, 'args': full, 'size': draw(size_spec),
            'how': draw(st.sampled_from(['mem', 'names', 'file']))}


def expected(m, n):
    """(cs, lens of all chunks, new max_app) after appending n bytes, or None."""
    cs = m.cs
    if cs == 0:
        cs = min(2 ** 20, n)
    lens = list(m.lens)
    space = cs - lens[-1]
    if n <= space:
        lens[-1] += n
        return cs, lens, m.max_app
    rest = n - space
    need = -(-rest // cs)
    if need > m.max_app:
        return None
    lens[-1] = cs
    lens += [cs] * (need - 1) + [rest - cs * (need - 1)]
    return cs, lens, m.max_app - need


def do_append(raw, new, how, blosc_args, ctx, skip=0, extra=0, counts=None):
    """Performs the append; returns (raw after, exception or None).  What
    append_fp returns is added to counts."""
    counts = [] if counts is None else counts
    if how == 'mem':
        t = io.BytesIO(raw)
        src = io.BytesIO(b'S' * skip + new + b'E' * extra)
        src.seek(skip)
        try:
            counts.append(api.append_mod.append_fp(t, src, len(new), blosc_args))
            return t.getvalue(), None
        except Exception as e:
            return t.getvalue(), e
    p, q = ctx.path('h.blp'), ctx.path('h.new')
    api.write_file(p, raw)
    api.write_file(q, new)
    err = None
    try:
        if how == 'names':
            api.append_mod.append(p, q, blosc_args)
        else:
            with open(p, 'r+b') as t, open(q, 'rb') as src:
                counts.append(api.append_mod.append_fp(t, src, len(new), blosc_args))
    except Exception as e:
        err = e
    after, new_after = api.read_file(p), api.read_file(q)
    os.unlink(p)
    os.unlink(q)
    expect_eq(new_after, new, 'the file that was appended from')
    return after, err


def cli_append(raw, new, spec, ctx, metadata=None):
    d = api.workdir(ctx)
    api.write_file(d + '/h.blp', raw)
    api.write_file(d + '/new', new)
    args = ['-n', '1', 'append']
    for k, o in (('typesize', '-t'), ('clevel', '-l'), ('cname', '-c')):
        if spec and spec['v'].get(k) is not None:
            args += [o, str(spec['v'][k])]
    if spec and spec['v'].get('shuffle') is not None and not spec['v']['shuffle']:
        args.append('-s')
    if metadata is not None:
        api.write_file(d + '/meta', json.dumps(metadata).encode())
        args += ['-m', 'meta']
    r = api.run_cli(args + ['h.blp', 'new'], d)
    snap = api.snapshot(d)
    import shutil
    shutil.rmtree(d)
    want = {'h.blp', 'new'} | ({'meta'} if metadata is not None else set())
    expect_eq(set(snap), want, 'files after blpk append')
    expect_eq(snap['new'], new, 'the file that was appended from')
    return snap['h.blp'], r


class Runner(object):
    counting = False    # whether the count that append_fp returns is checked

    def __init__(self, case, ctx, offsets=True):
        self.ctx = ctx
        self.raw, self.m = build(case['init'], offsets)
        self.m.first_unknown = len(self.m.lens) - 1
        self.appended = self.refused = self.rewritten = 0

    def section(self):
        f = ref.parse(self.raw, strict=False)
        return self.raw[32:f.meta_end]

    def step(self, k, op):
        what = 'operation %d (%s)' % (k, op['op'])
        getattr(self, 'do_' + op['op'].replace(' ', '_'))(op, what)

    def do_append(self, op, what):
        m, ctx = self.m, self.ctx
        n = resolve_size(op['size'], m)
        new = gen.make_data({'size': n, 'kind': op['kind'], 'seed': op['seed']})
        exp = expected(m, n)
        section = self.section()
        what = '%s of %d bytes through %s' % (what, n, op['how'])
        ctx.label('append to ' + ('same chunk' if exp and len(exp[1]) == len(m.lens) else
                                  'new chunks' if exp else 'too many chunks'),
                  'through ' + op['how'])
        if op['how'] == 'cli':
            after, r = cli_append(self.raw, new, op['blosc'], ctx)
            ok = r.status == 0
            expect(r.status is not None, '%s: %r', what, r)
            err = r
            counts = []
        else:
            counts = []
            after, err = do_append(self.raw, new, op['how'], make_append_blosc(op['blosc']), ctx,
                                   op['skip'], op['extra'], counts)
            ok = err is None
        if exp is None:
            expect(not ok, '%s: accepted although only %d of %d chunks are left', what, m.max_app,
                   -(-(n - (m.cs - m.lens[-1])) // m.cs))
            if op['how'] != 'cli':
                expect(isinstance(err, exc.NotEnoughSpace), '%s: %r instead of NotEnoughSpace', what, err)
            expect_eq(after, self.raw, 'file after the refused ' + what)
            self.refused += 1
            return
        expect(ok, '%s failed although %d chunks are available: %r', what, m.max_app, err)
        if self.counting:
            for n in counts:
                expect_eq(n, len(exp[1]) - len(m.lens), 'number of added chunks returned by ' + what)
        self.raw = after
        m.data += new
        m.cs, m.lens, m.max_app = exp
        m.lens_last_known = True
        verify(after, m, what, section)
        self.appended += 1

    def do_bad_append(self, op, what):
        n = resolve_size(op['size'], self.m)
        args = dict(op['args'])
        if op['why'] == 'value':
            try:   # the judge of what is invalid is blosc itself
                full = dict(gen.BLOSC_DEFAULTS, **args)
                api.blosc.compress(b'abc', **full)
                return
            except Exception:
                pass
        after, err = do_append(self.raw, bytes(n), op['how'], args, self.ctx)
        what = '%s with %s %r' % (what, op['why'], op['args'])
        expect(err is not None, '%s: accepted', what)
        expect_eq(after, self.raw, 'file after the refused ' + what)
        self.ctx.label('refused: ' + op['why'])
        self.refused += 1

    # -------------------------------------------------- metadata

    def do_rewrite(self, op, what):
        m, ctx = self.m, self.ctx
        new = gen.make_metadata(op['meta'])
        if 'alike' in op:
            new = alike(m.metadata, op['alike'])
        if m.metadata is None and not ref.parse(self.raw, strict=False).header.metadata:
            t = io.BytesIO(self.raw)
            with refused(what + ' without a metadata section', exc.NoMetadataFound):
                api.append_mod._seek_to_metadata(t)
            expect_eq(t.getvalue(), self.raw, 'file after the refused ' + what)
            ctx.label('no metadata')
            return
        f = ref.parse(self.raw, strict=False)
        h = f.meta_header
        kw = dict((k, v) for k, v in op['kw'].items())
        if kw.get('magic_format') is not None:
            kw['magic_format'] = kw['magic_format'].encode('latin-1')
        codec = kw.get('codec', 'zlib')
        codec = h.codec if codec is None else codec
        level = kw.get('level', 6)
        level = h.level if level is None else level
        checksum = kw.get('checksum')
        checksum = h.checksum if checksum is None else checksum
        want = None
        if op.get('same'):
            new = m.metadata
            want = exc.NoChangeInMetadata
        elif new == m.metadata:
            if not ref.strict_eq(new, m.metadata) or 'alike' not in op:
                return
            # the same value built anew
            want = exc.NoChangeInMetadata
        elif checksum not in gen.CHECKSUMS:
            want = exc.NoSuchChecksum
        elif ref.DIGEST_SIZE[checksum] != ref.DIGEST_SIZE[h.checksum]:
            want = exc.ChecksumLengthMismatch
        elif codec not in ref.META_CODECS:
            want = exc.NoSuchCodec
        elif not 0 <= level <= 9:
            want = ValueError
        elif kw.get('magic_format') not in (None, b'JSON'):
            want = exc.NoSuchSerializer
        else:
            with must_succeed('packing the new metadata'):
                stored = ref.parse(api.bp.pack_bytes_to_bytes(
                    b'', metadata=new, metadata_args=api.bp.MetadataArgs(
                        meta_codec=codec, meta_level=level, meta_checksum=checksum))).meta_header
            if stored.comp_size > h.max_size:
                want = exc.MetadataSectionTooSmall
        # at most one reason for a refusal at a time
        what = '%s to %.200r (%r)' % (what, new, kw)
        if op['how'] == 'cli':
            if want is not None or kw:
                return
            after, r = cli_append(self.raw, b'', None, ctx, metadata=new)
            expect(r.status == 0, '%s: %r', what, r)
            # blpk append -m appends first: it recompresses the last chunk
            f2 = ref.parse(after, strict=False)
            expect(ref.strict_eq(f2.metadata, new), 'metadata %r after %s', f2.metadata, what)
            expect_eq(f2.meta_header.max_size, h.max_size, 'reserved space after ' + what)
            self.raw, m.metadata, m.lens_last_known = after, new, True
            verify(after, m, what)
            self.rewritten += 1
            ctx.label('rewritten by cli')
            return

        def go(t):
            api.append_mod._seek_to_metadata(t)
            api.append_mod._rewrite_metadata_fp(t, new, **kw)
        err = None
        if op['how'] == 'mem':
            t = io.BytesIO(self.raw)
            try:
                go(t)
            except Exception as e:
                err = e
            after = t.getvalue()
        else:
            p = ctx.path('h.blp')
            api.write_file(p, self.raw)
            try:
                with open(p, 'r+b') as t:
                    go(t)
            except Exception as e:
                err = e
            after = api.read_file(p)
            os.unlink(p)
        if want is not None:
            ctx.label('refused: ' + want.__name__)
            expect(err is not None, '%s: accepted, expected %s', what, want.__name__)
            expect(isinstance(err, want), '%s: %r, expected %s', what, err, want.__name__)
            expect_eq(after, self.raw, 'file after the refused ' + what)
            self.refused += 1
            return
        expect(err is None, '%s: %r', what, err)
        try:
            f2 = ref.parse(after, strict=False)
        except ref.RefError as e:
            raise Violation('after %s the file does not conform: %s' % (what, e))
        h2 = f2.meta_header
        expect_eq(after[:32], self.raw[:32], 'bloscpack header after ' + what)
        expect_eq(f2.meta_end, f.meta_end, 'end of the metadata section after ' + what)
        expect_eq(after[f.meta_end:], self.raw[f.meta_end:], 'everything behind the metadata after ' + what)
        expect(ref.strict_eq(f2.metadata, new), 'metadata after %s: %r', what, f2.metadata)
        expect_eq((h2.max_size, h2.checksum, h2.codec, h2.size, h2.comp_size),
                  (h.max_size, checksum, stored.codec, stored.size, stored.comp_size),
                  'metadata header (max size, checksum, codec, size, stored size) after ' + what)
        if h2.codec != 'None':
            expect_eq(h2.level, level, 'metadata level after ' + what)
        # the old metadata must not be found in the space that is free now
        a, b = 64 + h2.comp_size, min(64 + h.comp_size, 64 + h2.max_size)
        for i in range(a, b - 11, 4):
            piece = self.raw[i:i + 12]
            expect(len(set(piece)) < 4 or after[i:i + 12] != piece,
                   '%s: bytes %d to %d still hold the old metadata', what, i, i + 12)
        ctx.label('rewritten', 'override ' + ','.join(sorted(kw)) if kw else None)
        self.raw, m.metadata = after, new
        verify(after, m, what)
        self.rewritten += 1

    def do_read(self, op, what):
        r = op['reader']
        with must_succeed('reading with %s at %s' % (r, what)):
            got, meta = api.READERS[r](self.ctx, self.raw)
        expect_eq(got, self.m.data, 'content read by %s at %s' % (r, what))
        expect(ref.strict_eq(meta, self.m.metadata), 'metadata read by %s at %s: %r instead of %r',
               r, what, meta, self.m.metadata)


read_op = st.fixed_dictionaries({'op': st.just('read'), 'reader': st.sampled_from(sorted(api.READERS))})


def alike(old, how):
    """Values that look like old, most of them different from it."""
    if how == 0:
        return json.loads(json.dumps(old))
    if how == 1:
        return str(old)
    if how == 2:
        return json.dumps(old)
    if how == 3:
        return [old]
    if how == 4:
        return {'': old}
    if isinstance(old, dict):
        items = list(old.items())
        return [dict(reversed(items)), dict(items[:-1]), dict(items, x=1), list(old),
                [list(i) for i in items], dict((k.upper(), v) for k, v in items), dict(items, **{'': None})][how - 5]
    if isinstance(old, list):
        return [old[::-1], old[:-1], old + [0], old + old, old[1:], dict((str(i), v) for i, v in enumerate(old)),
                [str(x) for x in old]][how - 5]
    if isinstance(old, str):
        return [old + ' ', old[:-1], old.upper(), old.lower(), old.strip(), old + '\0', old[::-1]][how - 5]
    return [str(old), [old, old], {'a': old}, [], 'null', '', json.dumps(str(old))][how - 5]


@st.composite
def rewrite_op(draw):
    """At most one of the overrides is a bad one."""
    kw = {}
    if draw(st.booleans()):
        kw['codec'] = draw(st.sampled_from(['None', 'zlib', 'zlib', None]))
    if draw(st.booleans()):
        kw['level'] = draw(st.one_of(st.integers(0, 9), st.none()))
    if draw(st.booleans()):
        kw['checksum'] = draw(st.sampled_from(gen.CHECKSUMS + [None]))
    if draw(st.integers(0, 3)) == 0:
        kw['magic_format'] = draw(st.sampled_from(['JSON', None]))
    op = {'op': 'rewrite', 'kw': kw, 'meta': draw(gen.metadata_spec(allow_none=False)),
          'how': draw(gen.weighted((5, st.just('mem')), (4, st.just('file')), (1, st.just('cli'))))}
    bad = draw(st.integers(0, 11))
    if bad == 0:
        kw['codec'] = draw(st.sampled_from(['lz4', 'ZLIB', '', 'none', 'bz2']))
        kw.pop('checksum', None)
    elif bad == 1:
        kw['checksum'] = draw(st.sampled_from(['crc', 'MD5', '', 'none', 'sha3']))
    elif bad == 2:
        kw['level'] = draw(st.sampled_from([-1, 10, 100]))
        kw.pop('checksum', None)
    elif bad == 3:
        kw['magic_format'] = draw(st.sampled_from(['XML', '', 'json', 'JSON\0x']))
        kw.pop('checksum', None)
    elif bad == 4:
        op['same'] = True
    elif bad < 8:
        op['alike'] = draw(st.integers(0, 11))
    return op
