"""C16: the command line round-trips files and reports the truth."""
import ast
import json
import locale
import os
import re

import blosc
from hypothesis import strategies as st

from .. import api, gen, ref, words
from ..core import Enum, Gen, expect, expect_eq, must_succeed

ASSUMPTIONS = ['blpk is run in a forked child through bloscpack.cli.main; a part of the cases runs the '
               'blpk script itself in a fresh interpreter',
               'a verbose message that is not printed at all is not judged']

UTF8 = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'
names = gen.weighted(
    (4, st.sampled_from(['data', 'data.dat', 'a b', 'x.blp', 'y.blp.blp', 'z.tar.gz', '.hidden', 'blp', '.blp.x',
                         'sub/data', 'UPPER.BLP', 'a.blpx', "quo'te", 'tab\tname', './x', 'per%cent %s', '@file',
                         '\u00e9\u20ac.bin'])),
    (1, st.text('abc. _+=,\u00e9', min_size=1, max_size=12).map(lambda t: 'n' + t)))


@st.composite
def metas(draw):
    if draw(st.integers(0, 2)) == 0:
        return None
    return {'m': draw(gen.metadata_spec(allow_none=False)), 'ascii': draw(st.booleans()) or not UTF8,
            'indent': draw(st.sampled_from([None, None, 2])), 'pad': draw(st.sampled_from(['', '\n', ' \n\t ']))}


@st.composite
def options(draw, kind='compress'):
    """The blosc options of compress and append, each given or left out."""
    o = {}
    if draw(st.booleans()):
        o['typesize'] = draw(gen.typesizes)
    if draw(st.booleans()):
        o['clevel'] = draw(st.integers(0, 9))
    if draw(st.integers(0, 2)) == 0:
        o['shuffle'] = False
    if draw(st.booleans()):
        o['cname'] = draw(gen.codec_names)
    if kind == 'compress':
        if draw(st.booleans()):
            o['checksum'] = draw(st.sampled_from(gen.CHECKSUMS))
        if draw(st.integers(0, 2)) == 0:
            o['offsets'] = False
    o['long'] = draw(st.booleans())
    o['sep'] = draw(st.sampled_from([' ', ' ', '=']))
    return o


FLAGS = {'typesize': ('-t', '--typesize'), 'clevel': ('-l', '--clevel'), 'cname': ('-c', '--codec'),
         'checksum': ('-k', '--checksum'), 'chunk': ('-z', '--chunk-size'), 'nthreads': ('-n', '--nthreads'),
         'metadata': ('-m', '--metadata')}
SWITCHES = {'shuffle': ('-s', '--no-shuffle'), 'offsets': ('-o', '--no-offsets')}


def flag(o, name, value):
    f = FLAGS[name][o['long']]
    if o['sep'] == '=':
        return ['%s=%s' % (f, value)] if o['long'] else ['%s%s' % (f, value)]
    return [f, str(value)]


def arguments(o):
    out = []
    for k in ('typesize', 'clevel', 'cname', 'checksum'):
        if k in o:
            out += flag(o, k, o[k])
    for k in ('shuffle', 'offsets'):
        if k in o:
            out.append(SWITCHES[k][o['long']])
    return out


@st.composite
def glob(draw):
    g = {'nthreads': draw(st.sampled_from([None, 1, 1, 1, 2, 5, 16, 256])),
         'loud': draw(st.sampled_from([None, '-v', '-v', '--verbose', '-d', '--debug'])),
         'force': draw(st.booleans()), 'long': draw(st.booleans()), 'sep': ' '}
    return g


def glob_args(g, force=None):
    out = []
    if g['loud']:
        out.append(g['loud'])
    if g['nthreads']:
        out += flag(g, 'nthreads', g['nthreads'])
    if g['force'] if force is None else force:
        out.append('--force' if g['long'] else '-f')
    return out


@st.composite
def cases(draw):
    plan = draw(gen.plan(max_chunks=20))
    c = {'plan': plan, 'name': draw(names), 'meta': draw(metas()), 'o': draw(options()), 'g': draw(glob()),
         'explicit': draw(st.sampled_from([None, None, 'out.blp', 'out', 'sub/o.blp', 'data.packed'])),
         'alias': draw(st.booleans()), 'script': draw(st.integers(0, 39)) == 23,
         'g2': draw(glob()), 'back': draw(st.sampled_from(['default', 'default', 'explicit', 'noext'])),
         'g3': draw(glob()), 'append': None}
    if draw(st.integers(0, 5)) == 0:
        c['plan']['chunk'] = 'max'
    if draw(st.integers(0, 3)) == 0 and 'offsets' not in c['o']:
        c['append'] = {'data': draw(gen.data_of_size(draw(st.integers(0, 5000)))), 'o': draw(options('append')),
                       'meta': draw(st.sampled_from([None, [1, 'new'], {'k': None}])) if c['meta'] else None,
                       'g': draw(glob())}
    return c


# ------------------------------------------------------------ output

SIZE = re.compile(r'^(\d+(?:\.\d+)?)([BKMGT])(?: \((\d+)B\))?$')


def says_size(text, want, what):
    m = SIZE.match(text)
    expect(m, '%s: %r is not a size', what, text)
    unit = ref.UNITS[m.group(2)]
    expect(abs(float(m.group(1)) * unit - want) <= 0.00501 * unit + 1e-9, '%s: reported %s, really %d bytes',
           what, text, want)
    if m.group(3):
        expect_eq(int(m.group(3)), want, what)


def lines(cli):
    out = []
    for l in cli.out.split('\n'):
        if l.startswith('blpk: '):
            out.append(l[6:])
    return out


def reported(ls, key):
    """Values of all lines 'key: value'."""
    return [l[len(key) + 2:] for l in ls if l.startswith(key + ': ')]


def check_sizes(ls, want, what):
    for key, n in want.items():
        for text in reported(ls, key):
            says_size(text, n, '%s, %s' % (what, key))


def check_numbers(ls, want, what):
    for key, n in want.items():
        for text in reported(ls, key):
            expect_eq(int(text.strip("'")), n, '%s, %s' % (what, key))


def check_ratio(ls, key, num, den, what):
    if den:
        for text in reported(ls, key):
            expect(abs(float(text) - num / den) <= 1e-6 * max(1, num / den), '%s: %s reported as %s, really %f',
                   what, key, text, num / den)


def check_threads(ls, g, what):
    n = g['nthreads'] or blosc.ncores
    for l in ls:
        m = re.match(r'^using (\d+) threads?$', l)
        if m:
            expect_eq(int(m.group(1)), n, '%s: number of threads' % what)


def printed_metadata(ls):
    """The object printed after 'Metadata:' (and the line where it ends)."""
    k = ls.index('Metadata:')
    end = len(ls)
    for i in range(k + 1, len(ls)):
        if ls[i] in ('MetadataHeader:', 'done', 'First chunk blosc header:'):
            end = i
            break
    text = '\n'.join(ls[k + 1:end])
    try:
        return ast.literal_eval(text.strip())
    except (ValueError, SyntaxError):
        expect(False, 'the printed metadata is not readable: %r', text[:500])


def attr(text):
    m = SIZE.match(text)
    if m and m.group(3):
        return int(m.group(3))
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text


def attributes(ls, title):
    expect(title in ls, 'info does not print %s', title)
    out = {}
    for l in ls[ls.index(title) + 1:]:
        m = re.match(r'^    (\w+): (.*)$', l)
        if not m:
            break
        out[m.group(1)] = attr(m.group(2))
        if SIZE.match(m.group(2)):
            says_size(m.group(2), out[m.group(1)], '%s %s' % (title, m.group(1)))
    return out


def check_info(cli, f, ctx):
    """``info`` printed what the file holds."""
    ls = lines(cli)
    h = f.header
    got = attributes(ls, 'BloscpackHeader:')
    want = {'format_version': h.version, 'offsets': h.offsets, 'metadata': h.metadata, 'checksum': h.checksum,
            'typesize': h.typesize, 'chunk_size': h.chunk_size, 'last_chunk': h.last_chunk,
            'nchunks': h.nchunks, 'max_app_chunks': h.max_app}
    for k in want:
        expect(k in got, 'info: %s is not reported', k)
        expect_eq(got[k], want[k], 'info: %s' % k)
    if h.offsets:
        expect("'offsets':" in ls, 'info does not print the offsets')
        text = ls[ls.index("'offsets':") + 1]
        nums = [int(x) for x in re.findall(r'-?\d+', text)]
        expect(nums == f.used_offsets[:len(nums)] and len(nums) == min(5, h.nchunks),
               'info prints the offsets %s, the file has %r', text, f.used_offsets[:6])
    else:
        expect("'offsets':" not in ls, 'info prints offsets of a file without any')
    if h.metadata and f.metadata is not None:
        expect('Metadata:' in ls, 'info does not print the metadata')
        expect(ref.strict_eq(printed_metadata(ls), f.metadata), 'info prints the metadata %r, stored is %r',
               printed_metadata(ls), f.metadata)
        m = f.meta_header
        got = attributes(ls, 'MetadataHeader:')
        want = {'meta_checksum': m.checksum, 'meta_codec': m.codec, 'meta_level': m.level,
                'meta_size': m.size, 'max_meta_size': m.max_size, 'meta_comp_size': m.comp_size,
                'meta_options': bin(m.options)[2:].rjust(8, '0')}
        for k in want:
            expect(k in got, 'info: %s is not reported', k)
            expect_eq(got[k], want[k], 'info: %s' % k)
    else:
        expect('Metadata:' not in ls, 'info prints metadata of a file without any')
    c = f.chunks[0]
    expect('First chunk blosc header:' in ls, 'info does not print the first chunk')
    text = ls[ls.index('First chunk blosc header:') + 1]
    got = dict((k, int(v)) for k, v in re.findall(r"'(\w+)'[:,] (\d+)", text))
    for k in ('version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes'):
        expect(k in got, 'info: %s of the first chunk is not reported', k)
        expect_eq(got[k], getattr(c, k), 'info: first chunk %s' % k)
    flags = [l for l in ls if 'pure_memcpy' in l]
    expect(len(flags) == 1, 'info does not print the flags of the first chunk')
    got = dict(re.findall(r"'(\w+)'[:,] (?:'(?=\w+'))?(\w+)", flags[0]))
    codec = {0: 'blosclz', 1: 'lz4', 2: 'snappy', 3: 'zlib', 4: 'zstd'}.get(c.flags >> 5)
    want = {'byte_shuffle': str(bool(c.flags & 1)), 'pure_memcpy': str(bool(c.flags & 2)),
            'bit_shuffle': str(bool(c.flags & 4))}
    for k in want:
        expect_eq(got.get(k), want[k], 'info: flag %s of the first chunk' % k)
    if codec is not None:
        expect(got.get('codec') == codec or codec == 'lz4' and got.get('codec') == 'lz4hc',
               'info: codec of the first chunk is %r, really %s', got.get('codec'), codec)
    ctx.label('info offsets' if h.offsets else 'info without offsets',
              'info metadata' if h.metadata else 'info without metadata')


def metadata_file(cwd, spec, name='meta.json'):
    m = gen.make_metadata(spec['m'])
    text = json.dumps(m, ensure_ascii=spec['ascii'] or '\\ud8' in json.dumps(m), indent=spec['indent'])
    api.write_file(os.path.join(cwd, name), (spec['pad'] + text + spec['pad']).encode('utf-8'))
    return m


def run(c, args, cwd, what):
    r = (api.run_blpk if c['script'] else api.run_cli)(args, cwd)
    expect(r.status == 0, '%s (blpk %s): %r', what, ' '.join(args), r)
    expect('Traceback' not in r.text, '%s (blpk %s) printed a traceback: %r', what, ' '.join(args), r)
    return r


def check(c, ctx):
    cwd = api.workdir(ctx)
    os.mkdir(os.path.join(cwd, 'sub'))
    full = lambda n: os.path.join(cwd, n)   # noqa: E731
    data = gen.make_data(c['plan']['data'])
    src = c['name']
    api.write_file(full(src), data)
    o, g = c['o'], c['g']
    args = glob_args(g) + ['c' if c['alias'] else 'compress'] + arguments(o)
    if c['plan']['chunk'] is not None:
        args += flag(o, 'chunk', c['plan']['chunk'])
    meta = None
    if c['meta']:
        meta = metadata_file(cwd, c['meta'])
        args += flag(o, 'metadata', 'meta.json')
    args.append(src)
    packed = c['explicit'] or src + '.blp'
    if c['explicit']:
        args.append(c['explicit'])
    ctx.label('script' if c['script'] else 'forked', 'explicit name' if c['explicit'] else 'default name',
              'metadata' if meta is not None else None, 'cname=' + o.get('cname', 'default'),
              'loud' if g['loud'] else None)
    ctx.nontrivial(len(data) > 0 and len(o) > 3)
    r = run(c, args, cwd, 'compress')
    expect(os.path.isfile(full(packed)), 'compress exited with 0 but there is no %r', packed)
    raw = api.read_file(full(packed))
    try:
        f = ref.parse(raw)
    except ref.RefError as e:
        expect(False, 'compress wrote a nonconforming file: %s', e)
    expect_eq(f.data, data, 'content of the compressed file')
    cs = 2 ** 20 if c['plan']['chunk'] is None else gen.MAXBUF if c['plan']['chunk'] == 'max' else \
        gen.plan_chunk(c['plan'])
    n, cs, last = ref.partition(len(data), cs)
    h = f.header
    expect_eq((h.nchunks, h.chunk_size, h.last_chunk), (n, cs, last), 'stored chunk counts and sizes')
    expect_eq((h.typesize, h.checksum, h.offsets, h.metadata, h.max_app),
              (o.get('typesize', 8), o.get('checksum', 'adler32'), o.get('offsets', True), meta is not None,
               10 * n if o.get('offsets', True) else 0), 'stored settings')
    if meta is not None:
        expect(ref.strict_eq(f.metadata, meta), 'stored metadata %r, given %r', f.metadata, meta)

    # the same file as the Python API writes
    ba = dict((k, o[k]) for k in ('typesize', 'clevel', 'shuffle', 'cname') if k in o)
    pa = dict((k, o[k]) for k in ('checksum', 'offsets') if k in o)
    kw = {} if c['plan']['chunk'] is None else {
        'chunk_size': gen.MAXBUF if c['plan']['chunk'] == 'max' else c['plan']['chunk']}
    blosc.set_nthreads(1)
    twin = ctx.path('api.blp')
    with must_succeed('packing with the Python API'):
        api.bp.pack_file_to_file(full(src), twin, metadata=meta, blosc_args=api.bp.BloscArgs(**ba),
                                 bloscpack_args=api.bp.BloscpackArgs(**pa), **kw)
    braw = api.read_file(twin)
    if g['nthreads'] == 1 or len(data) < 30000:
        expect_eq(raw, braw, 'file written by blpk versus the Python API')
        ctx.label('byte equality')
    else:
        b = ref.parse(braw)
        expect_eq(raw[:b.offsets_pos], braw[:b.offsets_pos], 'header and metadata, blpk versus the Python API')
        for x, y in zip(f.chunks, b.chunks):
            expect_eq((x.typesize, x.nbytes, x.flags & 5), (y.typesize, y.nbytes, y.flags & 5),
                      'chunk settings, blpk versus the Python API')

    # verbose output of compress
    ls = lines(r)
    check_sizes(ls, {'input file size': len(data), 'output file size': len(raw), 'chunk_size': cs,
                     'last_chunk_size': last}, 'compress')
    check_numbers(ls, {'nchunks': n}, 'compress')
    check_ratio(ls, 'compression ratio', len(data), len(raw), 'compress')
    check_threads(ls, g, 'compress')
    for k, v in (('input file is', src), ('output file is', packed)):
        for text in reported(ls, k):
            expect_eq(text, "'%s'" % v, 'compress: ' + k)

    if c['append']:
        data, raw, f = append(c, ctx, cwd, packed, data, raw, f)
        meta = f.metadata

    # info
    r = run(c, glob_args(c['g3']) + ['i' if c['alias'] else 'info', packed], cwd, 'info')
    check_info(r, f, ctx)
    expect_eq(api.read_file(full(packed)), raw, 'the file after info')

    # decompress
    args, back = [], c['back']
    if not packed.endswith('.blp'):
        back = 'noext'
    if back == 'default':
        dst = packed[:-4]
        os.unlink(full(src))
        tail = [packed]
    else:
        dst = 'restored'
        tail = ([['-e'], ['--no-check-extension']][c['alias']] if back == 'noext' else []) + [packed, dst]
    r = run(c, glob_args(c['g2']) + ['d' if c['alias'] else 'decompress'] + tail, cwd, 'decompress')
    expect(os.path.isfile(full(dst)), 'decompress exited with 0 but there is no %r', dst)
    expect_eq(api.read_file(full(dst)), data, 'decompressed file')
    expect_eq(api.read_file(full(packed)), raw, 'the compressed file after decompress')
    ls = lines(r)
    if meta:
        expect('Metadata:' in ls, 'decompress does not print the metadata')
        expect(ref.strict_eq(printed_metadata(ls), meta), 'decompress prints the metadata %r, stored is %r',
               printed_metadata(ls), meta)
    elif meta is None:
        expect('Metadata:' not in ls, 'decompress prints metadata of a file without any')
    check_sizes(ls, {'input file size': len(raw), 'output file size': len(data)}, 'decompress')
    check_ratio(ls, 'decompression ratio', len(data), len(raw), 'decompress')
    check_threads(ls, c['g2'], 'decompress')
    if f.meta_header is not None:
        for kind in ('compressed', 'uncompressed'):
            check_numbers(ls, {'read %s metadata of size' % kind: f.meta_header.comp_size}, 'decompress')
    for k, v in (('input file is', packed), ('output file is', dst)):
        for text in reported(ls, k):
            expect_eq(text, "'%s'" % v, 'decompress: ' + k)


def append(c, ctx, cwd, packed, data, raw, f):
    a = c['append']
    new = gen.make_data(a['data'])
    room = f.header.chunk_size * (1 + f.header.max_app) - f.header.last_chunk if len(data) else 10 ** 9
    new = new[:room]
    api.write_file(os.path.join(cwd, 'extra'), new)
    args = glob_args(a['g']) + ['a' if c['alias'] else 'append'] + arguments(a['o'])
    want_meta = f.metadata
    if not packed.endswith('.blp'):
        args.append('-e')
    if a['meta'] is not None and a['meta'] != f.metadata and \
            len(json.dumps(a['meta'])) < f.meta_header.max_size:
        api.write_file(os.path.join(cwd, 'meta2.json'), json.dumps(a['meta']).encode())
        args += ['-m', 'meta2.json']
        want_meta = a['meta']
    r = run(c, args + [packed, 'extra'], cwd, 'append')
    after = api.read_file(os.path.join(cwd, packed))
    try:
        g = ref.parse(after)
    except ref.RefError as e:
        expect(False, 'append left a nonconforming file: %s', e)
    expect_eq(g.data, data + new, 'content after append')
    expect(ref.strict_eq(g.metadata, want_meta), 'metadata after append %r, expected %r', g.metadata, want_meta)
    ls = lines(r)
    check_sizes(ls, {'orig file size before append': len(raw), 'new file size': len(new),
                     'orig file size after append': len(after)}, 'append')
    check_ratio(ls, 'Approximate compression ratio of appended data', len(after) - len(raw), len(new), 'append')
    check_threads(ls, a['g'], 'append')
    for k, v in (('original file is', packed), ('new file is', 'extra')):
        for text in reported(ls, k):
            expect_eq(text, "'%s'" % v, 'append: ' + k)
    if 'typesize' not in a['o'] and len(new):
        # the documented default of the command line
        expect_eq(g.chunks[-1].typesize, 8, 'typesize of the appended data')
    elif len(new):
        expect_eq(g.chunks[-1].typesize, a['o']['typesize'], 'typesize of the appended data')
    ctx.label('append')
    return g.data, after, g


# ------------------------------------------------------------ info on any file

@st.composite
def info_cases(draw):
    cs = draw(st.integers(1, 3000))
    n = draw(st.integers(1, 8))
    last = draw(st.integers(1, cs))
    return {'cs': cs, 'data': draw(gen.data_of_size(cs * (n - 1) + last, period=cs)), 'meta': draw(metas()),
            'checksum': draw(st.sampled_from(gen.CHECKSUMS)), 'typesize': draw(gen.typesizes),
            'htypesize': draw(st.integers(0, 255)), 'clevel': draw(st.integers(0, 9)),
            'shuffle': draw(gen.shuffles), 'cname': draw(gen.codec_names),
            'offsets': draw(st.sampled_from([None, 'exact', 'exact', 'unknown', 'some'])),
            'max_app': draw(st.sampled_from([0, 1, 7, 300])), 'sizes': draw(st.integers(0, 3)) != 0,
            'reserve': draw(st.sampled_from([0, 1, 100])), 'meta_codec': draw(gen.meta_codecs),
            'meta_level': draw(st.integers(0, 9)), 'meta_checksum': draw(st.sampled_from(gen.CHECKSUMS)),
            'alias': draw(st.booleans()), 'script': False, 'g': draw(glob()),
            'name': draw(names)}


def check_foreign(c, ctx):
    data = gen.make_data(c['data'])
    n, cs, last = ref.partition(len(data), c['cs'])
    blosc.set_nthreads(1)
    chunks = [blosc.compress(data[i * cs:(i + 1) * cs], typesize=c['typesize'], clevel=c['clevel'],
                             shuffle=c['shuffle'], cname=c['cname']) for i in range(n)]
    meta = None
    if c['meta']:
        m = gen.make_metadata(c['meta']['m'])
        meta = {'raw': json.dumps(m).encode(), 'codec': c['meta_codec'], 'level': c['meta_level'],
                'checksum': c['meta_checksum'], 'reserve': c['reserve']}
    offs = [i % 2 == 0 for i in range(n)] if c['offsets'] == 'some' else c['offsets']
    raw = ref.encode_file(chunks, checksum=c['checksum'], offsets=offs,
                          max_app=c['max_app'] if offs is not None else 0, typesize=c['htypesize'],
                          chunk_size=cs if c['sizes'] else -1, last_chunk=last if c['sizes'] else -1, meta=meta)
    f = ref.parse(raw, strict=False)
    cwd = api.workdir(ctx)
    os.mkdir(os.path.join(cwd, 'sub'))
    api.write_file(os.path.join(cwd, c['name']), raw)
    ctx.nontrivial(n > 1 or c['htypesize'] != c['typesize'])
    ctx.label('unknown sizes' if not c['sizes'] else None, 'offsets=%s' % c['offsets'])
    r = run(c, glob_args(c['g']) + ['i' if c['alias'] else 'info', c['name']], cwd, 'info')
    check_info(r, f, ctx)
    expect_eq(api.read_file(os.path.join(cwd, c['name'])), raw, 'the file after info')


# ------------------------------------------------------------ every value of every option

QUIET = {'nthreads': 1, 'loud': None, 'force': False, 'long': False, 'sep': ' '}


def option_cases(tier):
    k = 0

    def case(size=700, chunk=None, kind='few', **kw):
        c = {'plan': {'data': {'size': size, 'kind': kind, 'seed': size}, 'chunk': chunk}, 'name': 'data',
             'meta': None, 'o': {}, 'g': dict(QUIET, loud='-v' if k % 4 == 0 else None), 'explicit': None, 'alias': bool(k % 2),
             'script': False, 'g2': dict(QUIET, loud='-v' if k % 5 == 0 else None), 'back': 'default', 'g3': QUIET,
             'append': None}
        o = dict(kw.pop('o', {}), long=bool(k % 3), sep='= '[k % 2])
        c.update(kw, o=o)
        return c
    for cname in gen.CNAMES:
        for clevel in range(10):
            for shuffle in (True, False):
                k += 1
                o = {'cname': cname, 'clevel': clevel}
                if not shuffle:
                    o['shuffle'] = False
                yield case(o=o, chunk='300B')
    for ts in range(1, 256):
        k += 1
        yield case(o={'typesize': ts}, append={'data': {'size': 30, 'kind': 'rnd', 'seed': ts}, 'meta': None, 'g': QUIET,
                                               'o': {'long': False, 'sep': ' '}} if ts % 4 == 0 else None)
    for ck in gen.CHECKSUMS:
        for offsets in (True, False):
            for meta in (None, {'m': {'v': {'a': 1}}, 'ascii': True, 'indent': None, 'pad': ''}):
                k += 1
                o = {'checksum': ck}
                if not offsets:
                    o['offsets'] = False
                yield case(o=o, chunk='100B', meta=meta)
    for n in words.spread(words.around(1, 256), 40):
        k += 1
        yield case(size=40000, chunk='9K', g=dict(QUIET, nthreads=n, loud='-v'), g2=dict(QUIET, nthreads=n, loud='-v'))
    for size in words.around(0, 2 ** 21 + 2 if tier == 'quick' else 2 ** 25):
        k += 1
        yield case(size=size, kind='rnd')
        yield case(size=size, chunk='%dB' % max(1, size // 3))
    for chunk in ['1B', '0.5K', '1K', '1.5K', '0.001M', '1M', '0.25M', '0.0001G', '1G', '0.001T', 'max', '1.9999G']:
        k += 1
        yield case(chunk=chunk, size=5000)
    for n in words.spread(words.around(1, 1200), 60):
        k += 1
        yield case(chunk='2B', size=2 * n - n % 2)
    # names: strings the code knows in any position
    odd = [s for s in words.strings() if s and s.isascii() and s.isprintable() and '/' not in s and len(s) < 20
           and '{' not in s and s not in ('.', '..')]
    for s in words.spread(sorted(odd), 150):
        for name in ('n' + s, 'n' + s + 'n'):
            k += 1
            yield case(name=name, back=('default', 'explicit')[k % 2])



PARTS = [
    Enum('every option', option_cases, check,
         'every codec x level x shuffle, typesize, checksum x offsets x metadata, number of threads, size string, '
         'content sizes and chunk counts at powers of two, of ten and literals of the code, file names with strings '
         'of the code; non-trivial: as below'),
    Gen('round trip', cases(), check, 700, 12000,
        'compress, possibly append, info, decompress with generated options, names and verbosity; '
        'non-trivial: not empty and at least two options given'),
    Gen('info', info_cases(), check_foreign, 500, 8000,
        'info on files of the independent encoder; non-trivial: several chunks or a differing typesize'),
]
